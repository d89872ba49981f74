"""Which indicator belongs to which value-definition property."""
FAMILIES = {
    # one bar, or bars at fixed distances
    "C13": "abs acos asin atan ceil cos cosh exp floor ln log10 round sin sinh sqrt tan tanh todeg torad trunc "
           "add sub mul div avgprice medprice typprice wcprice bop marketfi crossany crossover lag mom roc rocr",
    # statistics, regression and weighted averages of a sliding window
    "C14": "sma sum var stddev stderr md bbands cci dpo linreg linregintercept linregslope tsf fosc wma trima hma "
           "vwma vwap swma pwma dwma idwma hwma shmma lma pbands posc edcf hf hfsma qstick volatility hurst",
    # extremes of a sliding window
    "C15": "min max aroon aroonosc pc willr stoch ichi vhf mhlma fisher stochrsi mesastoch",
    # recursive averages and filters
    "C16": "ema dema tema trix wilders zlema hfema ehma t3 gf1 gf2 gf3 gf4 bf2 bf3 ssmooth roof rema rmta rmf lf "
           "ahma decay edecay mgdyn emsd evwma",
    # momentum oscillators
    "C17": "rsi cmo macd apo ppo kst copp ultosc tsi smi rmi rvi pfe ao er",
    # volume and money flow
    "C18": "ad adosc obv nvi pvi pvt mfi cmf kvo emv fi wad vosc",
    # true range, directional movement, volatility bands
    "C19": "tr atr natr dm dx di adx adxr vi psar kc abands ce cmi mass cvi",
    # adaptive averages and cycle measurement
    "C20": "kama vidya frama mama hd arsi msw",
}
FAMILIES = {k: v.split() for k, v in FAMILIES.items()}
FAMILY_OF = {n: k for k, v in FAMILIES.items() for n in v}
