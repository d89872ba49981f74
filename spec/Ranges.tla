------------------------------- MODULE Ranges -------------------------------
(* Bounds every output must keep, whatever the series: documented ranges of  *)
(* oscillators, the order of bands, brackets around windows, and the hull of *)
(* what a mean with non-negative weights averages.  They are stated without  *)
(* reference to the definitions of the indicators, whose values they bind as *)
(* well as those of the code.                                                *)
(* Facts(ind, o, b, t): what holds for the outputs of bar t of the series b. *)
EXTENDS IndBase

Lo(j, v) == <<[kind |-> "low", j |-> j, k |-> 0, v |-> v]>>        \* output j is at least v
Hi(j, v) == <<[kind |-> "high", j |-> j, k |-> 0, v |-> v]>>
In(j, v, w) == Lo(j, v) \o Hi(j, w)
Ord(j, k) == <<[kind |-> "order", j |-> j, k |-> k, v |-> 0]>>      \* output j is at most output k
Hull(j, q) == In(j, MinSeq(q), MaxSeq(q))
MaxI(a, b) == IF a < b THEN b ELSE a
Tail1(v, t, n) == Win(v, t, IF n > t THEN t ELSE n)                \* the last n bars, or all there are
Mids(b, t, n) == [i \in 1..n |-> (b[1][t - n + i] ++ b[2][t - n + i]) // 2]

Percent  == {"rsi", "mfi", "ultosc", "adx", "adxr", "dx", "rmi", "rvi", "posc", "stoch", "aroon", "di", "arsi"}
Balanced == {"cmo", "aroonosc", "tsi", "smi"}
NonNegative == {"tr", "atr", "natr", "var", "stddev", "stderr", "md", "volatility", "abs", "exp", "sqrt", "mass", "vhf", "vi", "marketfi", "dm", "emsd"}
(* means of the last P(o, 1) values with weights that are not negative *)
WindowMeans == {"sma", "wma", "trima", "pwma", "idwma"}
(* convex combinations of values seen so far *)
HistoryMeans == {"ema", "wilders", "kama", "hfema", "dwma", "hf", "hfsma"}
(* convex combinations of values seen so far and of the zero they start from or fall back to *)
ZeroMeans == {"gf1", "edcf"}

Facts(ind, o, b, t) ==
  CASE ind = "di" -> In(1, 0, 100) \o In(2, 0, 100)
    [] ind \in {"stoch", "aroon"} -> In(1, 0, 100) \o In(2, 0, 100)
    [] ind \in Percent -> In(1, 0, 100)
    [] ind \in Balanced -> In(1, -100, 100)
    [] ind = "willr" -> In(1, -100, 0)
    [] ind \in {"stochrsi", "er", "crossany", "crossover"} -> In(1, 0, 1)
    [] ind \in {"bop", "cmf", "sin", "cos", "tanh"} -> In(1, -1, 1)
    [] ind = "msw" -> In(1, -1, 1) \o In(2, -1, 1)
    [] ind = "cosh" -> Lo(1, 1)
    [] ind = "acos" -> In(1, 0, Pi)
    [] ind \in {"asin", "atan"} -> In(1, Neg(Pi // 2), Pi // 2)
    [] ind = "floor" -> In(1, b[1][t] -- 1, b[1][t])
    [] ind = "ceil" -> In(1, b[1][t], b[1][t] ++ 1)
    [] ind = "round" -> In(1, b[1][t] -- R("0.5"), b[1][t] ++ R("0.5"))
    [] ind = "trunc" -> In(1, RMin(b[1][t], 0), RMax(b[1][t], 0))
    [] ind \in {"dm", "vi"} -> Lo(1, 0) \o Lo(2, 0)
    [] ind \in NonNegative -> Lo(1, 0)
    [] ind = "hurst" -> <<>>
    [] ind = "bbands" -> IF o[2] \preceq 0 THEN <<>> ELSE Ord(1, 2) \o Ord(2, 3) \o Hull(2, Win(b[1], t, P(o, 1)))
    [] ind = "kc" -> IF o[2] \prec 0 THEN <<>> ELSE Ord(1, 2) \o Ord(2, 3)
    [] ind = "abands" -> Ord(1, 3) \o Ord(3, 2) \o Hull(3, Win(b[3], t, P(o, 1)))
    [] ind = "pbands" -> Ord(1, 2) \o Hi(1, b[2][t]) \o Lo(2, b[1][t])
    [] ind = "pc" -> Ord(1, 2) \o Hi(1, MinSeq(Win(b[2], t, P(o, 1)))) \o Lo(2, MaxSeq(Win(b[1], t, P(o, 1))))
    [] ind = "min" -> LET m == MinSeq(Win(b[1], t, P(o, 1))) IN In(1, m, m)
    [] ind = "max" -> LET m == MaxSeq(Win(b[1], t, P(o, 1))) IN In(1, m, m)
    [] ind = "lag" -> Hull(1, Tail1(b[1], t, P(o, 1) + 1))
    [] ind \in {"medprice", "typprice", "wcprice"} -> In(1, b[2][t], b[1][t])
    [] ind = "avgprice" -> In(1, b[3][t], b[2][t])
    [] ind = "vwap" -> IF SumSeq(Win(b[4], t, P(o, 1))) \preceq 0 THEN <<>> ELSE In(1, MinSeq(Win(b[2], t, P(o, 1))), MaxSeq(Win(b[1], t, P(o, 1))))
    [] ind = "ichi" -> LET all == Tail1(b[1], t, t) low == Tail1(b[2], t, t)
                       IN  In(1, MinSeq(low), MaxSeq(all)) \o In(2, MinSeq(low), MaxSeq(all)) \o In(3, MinSeq(low), MaxSeq(all)) \o In(4, MinSeq(low), MaxSeq(all))
    [] ind = "mhlma" -> Hull(1, Tail1(b[1], t, t)) \o Hull(2, Tail1(b[1], t, t))
    [] ind = "frama" -> Hull(1, Mids(b, t, t))
    [] ind = "mama" -> Hull(1, <<0>> \o Tail1(b[1], t, t)) \o Hull(2, <<0>> \o Tail1(b[1], t, t))
    [] ind = "swma" -> IF P(o, 1) > 5 THEN <<>> ELSE Hull(1, Win(b[1], t, P(o, 1)))    \* longer ones have negative weights
    [] ind = "rmf" -> IF o[1] \preceq 4 THEN <<>> ELSE Hull(1, Tail1(b[1], t, t))     \* the smoothing factor is in 0..1
    [] ind = "evwma" -> IF o[2] \prec 1 THEN <<>> ELSE Hull(1, <<0>> \o Tail1(b[1], t, t))
    [] ind = "vwma" -> IF SumSeq(Win(b[2], t, P(o, 1))) \preceq 0 THEN <<>> ELSE Hull(1, Win(b[1], t, P(o, 1)))
    [] ind \in WindowMeans -> Hull(1, Win(b[1], t, P(o, 1)))
    [] ind = "sum" -> LET n == P(o, 1) q == Win(b[1], t, n) IN In(1, n ** MinSeq(q), n ** MaxSeq(q))
    [] ind \in HistoryMeans -> Hull(1, Tail1(b[1], t, t))
    [] ind \in ZeroMeans -> Hull(1, <<0>> \o Tail1(b[1], t, t))
    [] OTHER -> <<>>

(* got: the outputs of bar t; y: those of the definition, which tell how far rounding may go *)
Broken(f, y, got, sc) ==
  LET j == f.j IN
  IF j > Len(y) \/ j > Len(got) \/ IsOpen(y[j]) THEN FALSE
  ELSE IF ~ IsFiniteR(y[j]) THEN FALSE
  ELSE CASE f.kind = "low" -> ~ (f.v \preceq got[j]) /\ ~ Pair(y[j], f.v, got[j], sc)
         [] f.kind = "high" -> ~ (got[j] \preceq f.v) /\ ~ Pair(y[j], f.v, got[j], sc)
         [] f.kind = "order" -> /\ f.k <= Len(got) /\ ~ IsOpen(y[f.k]) /\ ~ (got[j] \preceq got[f.k])
                                /\ ~ Pair(y[j], got[f.k], got[j], sc) /\ ~ Pair(y[f.k], got[f.k], got[j], sc)
BrokenAmong(fs, y, got, sc) == SelectSeq(fs, LAMBDA f : Broken(f, y, got, sc))
=============================================================================
