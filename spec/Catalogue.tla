----------------------------- MODULE Catalogue -----------------------------
(* What the indicators take and give. *)
Cat == {
  [id |-> "abands", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"period">>, outputs |-> <<"abands_lower", "abands_upper", "abands_middle">>],
  [id |-> "abs", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"abs">>],
  [id |-> "acos", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"acos">>],
  [id |-> "ad", type |-> "indicator", inputs |-> <<"high", "low", "close", "volume">>, options |-> <<>>, outputs |-> <<"ad">>],
  [id |-> "add", type |-> "simple", inputs |-> <<"series", "series">>, options |-> <<>>, outputs |-> <<"add">>],
  [id |-> "adosc", type |-> "indicator", inputs |-> <<"high", "low", "close", "volume">>, options |-> <<"short period", "long period">>, outputs |-> <<"adosc">>],
  [id |-> "adx", type |-> "indicator", inputs |-> <<"high", "low">>, options |-> <<"period">>, outputs |-> <<"adx">>],
  [id |-> "adxr", type |-> "indicator", inputs |-> <<"high", "low">>, options |-> <<"period">>, outputs |-> <<"adxr">>],
  [id |-> "ahma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"ahma">>],
  [id |-> "ao", type |-> "indicator", inputs |-> <<"high", "low">>, options |-> <<>>, outputs |-> <<"ao">>],
  [id |-> "apo", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"short period", "long period">>, outputs |-> <<"apo">>],
  [id |-> "aroon", type |-> "indicator", inputs |-> <<"high", "low">>, options |-> <<"period">>, outputs |-> <<"aroon_down", "aroon_up">>],
  [id |-> "aroonosc", type |-> "indicator", inputs |-> <<"high", "low">>, options |-> <<"period">>, outputs |-> <<"aroonosc">>],
  [id |-> "arsi", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"cycpart">>, outputs |-> <<"arsi">>],
  [id |-> "asin", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"asin">>],
  [id |-> "atan", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"atan">>],
  [id |-> "atr", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"period">>, outputs |-> <<"atr">>],
  [id |-> "avgprice", type |-> "overlay", inputs |-> <<"open", "high", "low", "close">>, options |-> <<>>, outputs |-> <<"avgprice">>],
  [id |-> "bbands", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period", "stddev">>, outputs |-> <<"bbands_lower", "bbands_middle", "bbands_upper">>],
  [id |-> "bf2", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"bf2">>],
  [id |-> "bf3", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"bf3">>],
  [id |-> "bop", type |-> "indicator", inputs |-> <<"open", "high", "low", "close">>, options |-> <<>>, outputs |-> <<"bop">>],
  [id |-> "cci", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"period">>, outputs |-> <<"cci">>],
  [id |-> "ce", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"period", "coef">>, outputs |-> <<"ce_high", "ce_low">>],
  [id |-> "ceil", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"ceil">>],
  [id |-> "cmf", type |-> "indicator", inputs |-> <<"high", "low", "close", "volume">>, options |-> <<"period">>, outputs |-> <<"cmf">>],
  [id |-> "cmi", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"period">>, outputs |-> <<"cmi">>],
  [id |-> "cmo", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"cmo">>],
  [id |-> "copp", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"roc_shorter_period", "roc_longer_period", "wma_period">>, outputs |-> <<"copp">>],
  [id |-> "cos", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"cos">>],
  [id |-> "cosh", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"cosh">>],
  [id |-> "crossany", type |-> "math", inputs |-> <<"series", "series">>, options |-> <<>>, outputs |-> <<"crossany">>],
  [id |-> "crossover", type |-> "math", inputs |-> <<"series", "series">>, options |-> <<>>, outputs |-> <<"crossover">>],
  [id |-> "cvi", type |-> "indicator", inputs |-> <<"high", "low">>, options |-> <<"period">>, outputs |-> <<"cvi">>],
  [id |-> "decay", type |-> "math", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"decay">>],
  [id |-> "dema", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"dema">>],
  [id |-> "di", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"period">>, outputs |-> <<"plus_di", "minus_di">>],
  [id |-> "div", type |-> "simple", inputs |-> <<"series", "series">>, options |-> <<>>, outputs |-> <<"div">>],
  [id |-> "dm", type |-> "indicator", inputs |-> <<"high", "low">>, options |-> <<"period">>, outputs |-> <<"plus_dm", "minus_dm">>],
  [id |-> "dpo", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"dpo">>],
  [id |-> "dwma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"dwma">>],
  [id |-> "dx", type |-> "indicator", inputs |-> <<"high", "low">>, options |-> <<"period">>, outputs |-> <<"dx">>],
  [id |-> "edcf", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"length">>, outputs |-> <<"edcf">>],
  [id |-> "edecay", type |-> "math", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"edecay">>],
  [id |-> "ehma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"ehma">>],
  [id |-> "ema", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"ema">>],
  [id |-> "emsd", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period", "ma_period">>, outputs |-> <<"emsd">>],
  [id |-> "emv", type |-> "indicator", inputs |-> <<"high", "low", "volume">>, options |-> <<>>, outputs |-> <<"emv">>],
  [id |-> "er", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"er">>],
  [id |-> "evwma", type |-> "overlay", inputs |-> <<"close", "volume">>, options |-> <<"period", "gamma">>, outputs |-> <<"evwma">>],
  [id |-> "exp", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"exp">>],
  [id |-> "fi", type |-> "indicator", inputs |-> <<"close", "volume">>, options |-> <<"period">>, outputs |-> <<"fi">>],
  [id |-> "fisher", type |-> "indicator", inputs |-> <<"high", "low">>, options |-> <<"period">>, outputs |-> <<"fisher", "fisher_signal">>],
  [id |-> "floor", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"floor">>],
  [id |-> "fosc", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"fosc">>],
  [id |-> "frama", type |-> "overlay", inputs |-> <<"high", "low">>, options |-> <<"period", "average_period">>, outputs |-> <<"frama">>],
  [id |-> "gf1", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"gf1">>],
  [id |-> "gf2", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"gf2">>],
  [id |-> "gf3", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"gf3">>],
  [id |-> "gf4", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"gf4">>],
  [id |-> "hd", type |-> "indicator", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"hd">>],
  [id |-> "hf", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period", "threshold">>, outputs |-> <<"hf">>],
  [id |-> "hfema", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"ema_period", "k", "threshold">>, outputs |-> <<"hfema">>],
  [id |-> "hfsma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"sma_period", "k", "threshold">>, outputs |-> <<"hfsma">>],
  [id |-> "hma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"hma">>],
  [id |-> "hurst", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"hurst", "fractal_dim">>],
  [id |-> "hwma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"hwma">>],
  [id |-> "ichi", type |-> "indicator", inputs |-> <<"high", "low">>, options |-> <<"period9", "period26", "period52">>, outputs |-> <<"ichi_tenkan_sen", "ichi_kijun_sen", "ichi_senkou_span_A", "ichi_senkou_span_B">>],
  [id |-> "idwma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period", "exponent">>, outputs |-> <<"idwma">>],
  [id |-> "kama", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"kama">>],
  [id |-> "kc", type |-> "overlay", inputs |-> <<"high", "low", "close">>, options |-> <<"period", "multiple">>, outputs |-> <<"kc_lower", "kc_middle", "kc_upper">>],
  [id |-> "kst", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"roc1", "roc2", "roc3", "roc4", "ma1", "ma2", "ma3", "ma4">>, outputs |-> <<"kst", "kst_signal">>],
  [id |-> "kvo", type |-> "indicator", inputs |-> <<"high", "low", "close", "volume">>, options |-> <<"short period", "long period">>, outputs |-> <<"kvo">>],
  [id |-> "lag", type |-> "math", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"lag">>],
  [id |-> "lf", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"gamma">>, outputs |-> <<"lf">>],
  [id |-> "linreg", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"linreg">>],
  [id |-> "linregintercept", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"linregintercept">>],
  [id |-> "linregslope", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"linregslope">>],
  [id |-> "lma", type |-> "overlay", inputs |-> <<"close">>, options |-> <<"period">>, outputs |-> <<"lma">>],
  [id |-> "ln", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"ln">>],
  [id |-> "log10", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"log10">>],
  [id |-> "macd", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"short period", "long period", "signal period">>, outputs |-> <<"macd", "macd_signal", "macd_histogram">>],
  [id |-> "mama", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"fastlimit", "slowlimit">>, outputs |-> <<"mama", "fama">>],
  [id |-> "marketfi", type |-> "indicator", inputs |-> <<"high", "low", "volume">>, options |-> <<>>, outputs |-> <<"marketfi">>],
  [id |-> "mass", type |-> "indicator", inputs |-> <<"high", "low">>, options |-> <<"period">>, outputs |-> <<"mass">>],
  [id |-> "max", type |-> "math", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"max">>],
  [id |-> "md", type |-> "math", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"md">>],
  [id |-> "medprice", type |-> "overlay", inputs |-> <<"high", "low">>, options |-> <<>>, outputs |-> <<"medprice">>],
  [id |-> "mesastoch", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period", "max_cycle_considered">>, outputs |-> <<"mesastoch">>],
  [id |-> "mfi", type |-> "indicator", inputs |-> <<"high", "low", "close", "volume">>, options |-> <<"period">>, outputs |-> <<"mfi">>],
  [id |-> "mgdyn", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"N">>, outputs |-> <<"mgdyn">>],
  [id |-> "mhlma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period", "ma_period">>, outputs |-> <<"mhlsma", "mhlema">>],
  [id |-> "min", type |-> "math", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"min">>],
  [id |-> "mom", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"mom">>],
  [id |-> "msw", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"msw_sine", "msw_lead">>],
  [id |-> "mul", type |-> "simple", inputs |-> <<"series", "series">>, options |-> <<>>, outputs |-> <<"mul">>],
  [id |-> "natr", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"period">>, outputs |-> <<"natr">>],
  [id |-> "nvi", type |-> "indicator", inputs |-> <<"close", "volume">>, options |-> <<>>, outputs |-> <<"nvi">>],
  [id |-> "obv", type |-> "indicator", inputs |-> <<"close", "volume">>, options |-> <<>>, outputs |-> <<"obv">>],
  [id |-> "pbands", type |-> "overlay", inputs |-> <<"high", "low", "close">>, options |-> <<"period">>, outputs |-> <<"pbands_lower", "pbands_upper">>],
  [id |-> "pc", type |-> "overlay", inputs |-> <<"high", "low">>, options |-> <<"period">>, outputs |-> <<"pc_low", "pc_high">>],
  [id |-> "pfe", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period", "ema_period">>, outputs |-> <<"pfe">>],
  [id |-> "posc", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"period", "ema_period">>, outputs |-> <<"posc">>],
  [id |-> "ppo", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"short period", "long period">>, outputs |-> <<"ppo">>],
  [id |-> "psar", type |-> "overlay", inputs |-> <<"high", "low">>, options |-> <<"acceleration factor step", "acceleration factor maximum">>, outputs |-> <<"psar">>],
  [id |-> "pvi", type |-> "indicator", inputs |-> <<"close", "volume">>, options |-> <<>>, outputs |-> <<"pvi">>],
  [id |-> "pvt", type |-> "indicator", inputs |-> <<"close", "volume">>, options |-> <<>>, outputs |-> <<"pvt">>],
  [id |-> "pwma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period", "power">>, outputs |-> <<"pwma">>],
  [id |-> "qstick", type |-> "indicator", inputs |-> <<"open", "close">>, options |-> <<"period">>, outputs |-> <<"qstick">>],
  [id |-> "rema", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period", "lambda">>, outputs |-> <<"rema">>],
  [id |-> "rmf", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"critical_period", "median_period">>, outputs |-> <<"rmf">>],
  [id |-> "rmi", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period", "lookback_period">>, outputs |-> <<"rmi">>],
  [id |-> "rmta", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period", "beta">>, outputs |-> <<"rmta">>],
  [id |-> "roc", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"roc">>],
  [id |-> "rocr", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"rocr">>],
  [id |-> "roof", type |-> "overlay", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"roof">>],
  [id |-> "round", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"round">>],
  [id |-> "rsi", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"rsi">>],
  [id |-> "rvi", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"ema_period", "stddev_period">>, outputs |-> <<"rvi">>],
  [id |-> "shmma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"shmma">>],
  [id |-> "sin", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"sin">>],
  [id |-> "sinh", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"sinh">>],
  [id |-> "sma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"sma">>],
  [id |-> "smi", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"q_period", "r_period", "s_period">>, outputs |-> <<"smi">>],
  [id |-> "sqrt", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"sqrt">>],
  [id |-> "ssmooth", type |-> "overlay", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"ssmooth">>],
  [id |-> "stddev", type |-> "math", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"stddev">>],
  [id |-> "stderr", type |-> "math", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"stderr">>],
  [id |-> "stoch", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"k period", "k slowing period", "d period">>, outputs |-> <<"stoch_k", "stoch_d">>],
  [id |-> "stochrsi", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"stochrsi">>],
  [id |-> "sub", type |-> "simple", inputs |-> <<"series", "series">>, options |-> <<>>, outputs |-> <<"sub">>],
  [id |-> "sum", type |-> "math", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"sum">>],
  [id |-> "swma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"swma">>],
  [id |-> "t3", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period", "v">>, outputs |-> <<"t3">>],
  [id |-> "tan", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"tan">>],
  [id |-> "tanh", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"tanh">>],
  [id |-> "tema", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"tema">>],
  [id |-> "todeg", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"degrees">>],
  [id |-> "torad", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"radians">>],
  [id |-> "tr", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<>>, outputs |-> <<"tr">>],
  [id |-> "trima", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"trima">>],
  [id |-> "trix", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"trix">>],
  [id |-> "trunc", type |-> "simple", inputs |-> <<"series">>, options |-> <<>>, outputs |-> <<"trunc">>],
  [id |-> "tsf", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"tsf">>],
  [id |-> "tsi", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"y_period", "z_period">>, outputs |-> <<"tsi">>],
  [id |-> "typprice", type |-> "overlay", inputs |-> <<"high", "low", "close">>, options |-> <<>>, outputs |-> <<"typprice">>],
  [id |-> "ultosc", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"short period", "medium period", "long period">>, outputs |-> <<"ultosc">>],
  [id |-> "var", type |-> "math", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"var">>],
  [id |-> "vhf", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"vhf">>],
  [id |-> "vi", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"period">>, outputs |-> <<"vi_p", "vi_m">>],
  [id |-> "vidya", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"short period", "long period", "alpha">>, outputs |-> <<"vidya">>],
  [id |-> "volatility", type |-> "indicator", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"volatility">>],
  [id |-> "vosc", type |-> "indicator", inputs |-> <<"volume">>, options |-> <<"short period", "long period">>, outputs |-> <<"vosc">>],
  [id |-> "vwap", type |-> "overlay", inputs |-> <<"high", "low", "close", "volume">>, options |-> <<"period">>, outputs |-> <<"vwap">>],
  [id |-> "vwma", type |-> "overlay", inputs |-> <<"close", "volume">>, options |-> <<"period">>, outputs |-> <<"vwma">>],
  [id |-> "wad", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<>>, outputs |-> <<"wad">>],
  [id |-> "wcprice", type |-> "overlay", inputs |-> <<"high", "low", "close">>, options |-> <<>>, outputs |-> <<"wcprice">>],
  [id |-> "wilders", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"wilders">>],
  [id |-> "willr", type |-> "indicator", inputs |-> <<"high", "low", "close">>, options |-> <<"period">>, outputs |-> <<"willr">>],
  [id |-> "wma", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"wma">>],
  [id |-> "zlema", type |-> "overlay", inputs |-> <<"series">>, options |-> <<"period">>, outputs |-> <<"zlema">>]
}
=============================================================================
