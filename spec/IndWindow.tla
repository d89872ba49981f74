------------------------------ MODULE IndWindow ------------------------------
(* Statistics, regressions and weighted means of a sliding window.            *)
EXTENDS IndBase

WindowNames == {"sma", "sum", "var", "stddev", "stderr", "md", "bbands", "cci", "dpo", "linreg", "linregintercept",
  "linregslope", "tsf", "fosc", "wma", "trima", "hma", "vwma", "vwap", "swma", "pwma", "dwma", "idwma", "hwma",
  "shmma", "lma", "pbands", "posc", "edcf", "hf", "hfsma", "qstick", "volatility", "hurst"}

ISqrt(n) == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
MaxI(a, b) == IF a < b THEN b ELSE a

WindowValid(ind, o) ==
  CASE ind = "hurst" -> P(o, 1) >= 2
    [] ind = "swma"  -> P(o, 1) >= 1 /\ P(o, 1) % 6 # 0 /\ P(o, 1) % 6 # 5    \* the weights would cancel
    [] ind = "hwma"  -> P(o, 1) >= 7 /\ P(o, 1) <= 13
    [] ind = "idwma" -> P(o, 1) >= 1 /\ 1 \preceq o[2] /\ o[2] \preceq 2
    [] ind = "hf"    -> P(o, 1) >= 1 /\ 0 \preceq o[2]
    [] ind = "hfsma" -> P(o, 1) >= 1 /\ P(o, 2) >= 1 /\ 0 \preceq o[3]
    [] ind = "posc"  -> P(o, 1) >= 1 /\ P(o, 2) >= 1
    [] OTHER -> P(o, 1) >= 1

WindowStart(ind, o) ==
  LET p == P(o, 1) IN
  CASE ind \in {"fosc", "volatility", "hurst"} -> p
    [] ind \in {"cci", "dwma"} -> 2 * (p - 1)
    [] ind = "dpo"   -> MaxI(p - 1, p \div 2 + 1)
    [] ind = "hma"   -> p + ISqrt(p) - 2
    [] ind = "edcf"  -> 2 * p - 1
    [] ind = "hf"    -> 2 * p
    [] ind = "hfsma" -> p - 1 + 2 * P(o, 2)
    [] OTHER -> p - 1

Henderson(p) ==
  CASE p = 7  -> <<"-0.092", "-0.058", "0.012", "0.12", "0.244", "0.353", "0.421">>
    [] p = 8  -> <<"-0.043", "-0.038", "0.002", "0.08", "0.174", "0.254", "0.292", "0.279">>
    [] p = 9  -> <<"-0.016", "-0.025", "0.003", "0.068", "0.149", "0.216", "0.241", "0.216", "0.148">>
    [] p = 10 -> <<"-0.009", "-0.022", "0.004", "0.066", "0.145", "0.208", "0.23", "0.201", "0.131", "0.046">>
    [] p = 11 -> <<"-0.011", "-0.022", "0.003", "0.067", "0.145", "0.21", "0.235", "0.205", "0.136", "0.05", "-0.018">>
    [] p = 12 -> <<"-0.017", "-0.025", "0.001", "0.066", "0.147", "0.213", "0.238", "0.212", "0.144", "0.061", "-0.006", "-0.034">>
    [] p = 13 -> <<"-0.019", "-0.028", "0", "0.066", "0.147", "0.214", "0.24", "0.214", "0.147", "0.066", "0", "-0.028", "-0.019">>

(* weights of a window of p, oldest first *)
Weights(ind, o) ==
  LET p == P(o, 1) IN
  CASE ind = "swma"  -> [i \in 1..p |-> Sin((p - i + 1) ** (Pi // 6))]
    [] ind = "pwma"  -> [i \in 1..p |-> Pow(i, o[2])]
    [] ind = "idwma" -> [i \in 1..p |-> 1 // Pow(p - i + 1, o[2])]
    [] ind = "trima" -> [i \in 1..p |-> IF i < p + 1 - i THEN i ELSE p + 1 - i]
    [] ind = "hwma"  -> [i \in 1..p |-> R(Henderson(p)[i])]
    [] ind = "shmma" -> [i \in 1..p |-> (2 * i - p - 1) // 2]

(* Mean and mean square of a window kept as running sums, which is how rounding noise enters: the sums are exact *)
(* for exact inputs.  x enters, and old leaves (0 while the window fills).                                        *)
RunSums(s, x, old) == [s1 |-> (s.s1 ++ x) -- old, s2 |-> (s.s2 ++ (x ** x)) -- (old ** old)]
NoSums == [s1 |-> 0, s2 |-> 0]
RunVar(z, n) == (z.s2 // n) -- ((z.s1 // n) ** (z.s1 // n))
StdOf(v) == Sqrt(RMax0(v))           \* a variance below zero is rounding

WindowInit(ind, o) ==
  CASE ind \in {"swma", "pwma", "idwma", "trima", "hwma", "shmma"} ->
         LET w == Weights(ind, o) IN [w |-> [i \in 1..P(o, 1) |-> w[i]], total |-> SumSeq(w)]
    [] ind = "posc" -> [ema |-> Unk]
    [] ind \in {"var", "stddev", "stderr", "bbands", "volatility"} -> NoSums
    [] OTHER -> <<>>                           \* the queue of intermediate values

(* Least squares over x = 1..n: y = a + b x *)
Slope(q) == IF Len(q) = 1 THEN 0 ELSE
            LET n == Len(q)
                sx == (n ** (n + 1)) // 2
                sxx == ((n ** (n + 1)) ** (2 * n + 1)) // 6
            IN  ((n ** Dot(q, LinWeights(n))) -- (sx ** SumSeq(q))) // ((n ** sxx) -- (sx ** sx))
LineAt(q, x) == LET n == Len(q)  b == Slope(q)
                IN  ((SumSeq(q) -- (b ** ((n ** (n + 1)) // 2))) // n) ++ (b ** x)

MeanDev(q) == LET m == Mean(q) IN SumSeq([i \in 1..Len(q) |-> Abs(m -- q[i])]) // Len(q)

Typ(b, i) == SumSeq(<<b[1][i], b[2][i], b[3][i]>>) // 3
TypWin(b, t, p) == [i \in 1..p |-> Typ(b, t - p + i)]

Return(v, i) == IfEq(v[i-1], 0, 0, (v[i] // v[i-1]) -- 1)
LogReturn(v, i) == IF v[i] \doteq 0 \/ v[i-1] \doteq 0 THEN 0 ELSE Ln(v[i] // v[i-1])

(* Highest and lowest projections of the window along its regression line. *)
Project(v, t, p, slope) == [j \in 1..p |-> v[t - j + 1] ++ ((j - 1) ** slope)]
BandSlope(b, t, p) == IF p = 1 THEN 0 ELSE Slope(Win(b[3], t, p))

Median(q, k) == SortSeqR(q)[k + 1]
(* Hampel identifier over q (of length 2k+1) *)
HampelCentre(q, k) == Median(q, k)
HampelLimit(q, k, threshold) ==
  LET m == HampelCentre(q, k)
  IN  threshold ** R("1.4826") ** Median([i \in 1..Len(q) |-> Abs(q[i] -- m)], k)

WindowStep(ind, o, s, b, t) ==
  LET p == P(o, 1)
      full == t >= p
      q == Win(b[1], t, p)
      Plain(v) == IF full THEN Out1(s, v) ELSE Quiet(s)
  IN
  CASE ind = "sma" -> Plain(Mean(q))
    [] ind = "sum" -> Plain(SumSeq(q))
    [] ind \in {"var", "stddev", "stderr", "bbands"} ->
         LET z == RunSums(s, b[1][t], IF t > p THEN b[1][t - p] ELSE 0)
             v == RunVar(z, p)
             m == z.s1 // p
             d == o[2] ** StdOf(v)
         IN  IF ~full THEN Quiet(z)
             ELSE (CASE ind = "var" -> Out1(z, v)
                    [] ind = "stddev" -> Out1(z, StdOf(v))
                    [] ind = "stderr" -> Out1(z, StdOf(v) // Sqrt(p))
                    [] ind = "bbands" -> Out3(z, m -- d, m, m ++ d))
    [] ind = "md" -> Plain(MeanDev(q))
    [] ind = "cci" -> IF t <= 2 * (p - 1) THEN Quiet(s)
         ELSE LET w == TypWin(b, t, p)  d == MeanDev(w)
              IN  Out1(s, IF \A j \in 1..3 : MaxSeq(Win(b[j], t, p)) \doteq MinSeq(Win(b[j], t, p)) THEN 0 ELSE IfEq(d, 0, 0, (w[p] -- Mean(w)) // (d ** R("0.015"))))
    [] ind = "dpo" -> IF t <= MaxI(p - 1, p \div 2 + 1) THEN Quiet(s) ELSE Out1(s, b[1][t - (p \div 2 + 1)] -- Mean(q))
    [] ind = "linreg" -> Plain(LineAt(q, p))
    [] ind = "linregintercept" -> Plain(LineAt(q, 1))
    [] ind = "linregslope" -> Plain(Slope(q))
    [] ind = "tsf" -> Plain(LineAt(q, p + 1))
    [] ind = "fosc" -> IF t <= p THEN Quiet(s)
         ELSE LET f == LineAt(Win(b[1], t - 1, p), p + 1)  x == b[1][t]
              IN  Out1(s, IfEq(x, f, 0, (100 ** (x -- f)) // x))
    [] ind = "wma" -> Plain(Wma(q))
    [] ind \in {"swma", "pwma", "idwma", "trima"} -> Plain(Dot(q, s.w) // s.total)
    [] ind = "hwma" -> Plain(Dot(q, s.w))
    [] ind = "shmma" -> Plain(Mean(q) ++ ((6 ** Dot(q, s.w)) // (p ** (p + 1))))
    [] ind = "lma" -> Plain((2 ** Wma(q)) -- Mean(q))
    [] ind = "dwma" -> IF ~full THEN Quiet(s)
         ELSE LET z == Push(s, Wma(q), p) IN IF Len(z) < p THEN Quiet(z) ELSE Out1(z, Wma(z))
    [] ind = "hma" -> IF ~full THEN Quiet(s)
         ELSE LET r == ISqrt(p)
                  z == Push(s, (2 ** Wma(Win(b[1], t, MaxI(1, p \div 2)))) -- Wma(q), r)
              IN  IF Len(z) < r THEN Quiet(z) ELSE Out1(z, Wma(z))
    [] ind = "vwma" -> Plain(LET v == Win(b[2], t, p)  n == Dot(q, v) IN IfEq(n, 0, 0, n // SumSeq(v)))
    [] ind = "vwap" -> Plain(LET v == Win(b[4], t, p)  n == Dot(TypWin(b, t, p), v) IN IfEq(n, 0, 0, n // SumSeq(v)))
    [] ind = "pbands" -> IF ~full THEN Quiet(s)
         ELSE LET m == BandSlope(b, t, p) IN Out2(s, MinSeq(Project(b[2], t, p, m)), MaxSeq(Project(b[1], t, p, m)))
    [] ind = "posc" -> IF ~full THEN Quiet(s)
         ELSE LET m == BandSlope(b, t, p)
                  lo == MinSeq(Project(b[2], t, p, m))
                  hi == MaxSeq(Project(b[1], t, p, m))
                  c == b[3][t]
                  osc == IfEq(c, lo, 0, ((c -- lo) // (hi -- lo)) ** 100)
                  e == IF t = p THEN osc ELSE Smooth(s.ema, osc, EmaK(P(o, 2)))
              IN  Out1([ema |-> e], e)
    [] ind = "edcf" -> IF t < 2 * p THEN Quiet(s)
         ELSE LET x(i) == b[1][t - i]
                  d == [c \in 1..p |-> SumSeq([l \in 1..(p - 1) |-> (x(c - 1) -- x(c - 1 + l)) ** (x(c - 1) -- x(c - 1 + l))])]
                  n == SumSeq(d)
              IN  Out1(s, IfEq(n, 0, 0, Dot([c \in 1..p |-> x(c - 1)], d) // n))
    [] ind = "hf" -> IF t <= 2 * p THEN Quiet(s)
         ELSE LET w == Win(b[1], t, 2 * p + 1)  m == HampelCentre(w, p)  c == w[2 * p + 1]
              IN  Out1(s, IfLt(Abs(c -- m), HampelLimit(w, p, o[2]), c, m))
    [] ind = "hfsma" -> IF ~full THEN Quiet(s)
         ELSE LET k == P(o, 2)
                  z == Push(s, Mean(q), 2 * k + 1)
              IN  IF Len(z) < 2 * k + 1 THEN Quiet(z)
                  ELSE LET m == HampelCentre(z, k)  c == z[k + 1]
                       IN  Out1(z, IfLe(Abs(c -- m), HampelLimit(z, k, o[3]), c, m))
    [] ind = "qstick" -> Plain((SumSeq(Win(b[2], t, p)) -- SumSeq(q)) // p)
    [] ind = "volatility" -> IF t = 1 THEN Quiet(s)
         ELSE LET z == RunSums(s, Return(b[1], t), IF t > p + 1 THEN Return(b[1], t - p) ELSE 0)
              IN  IF t <= p THEN Quiet(z) ELSE Out1(z, StdOf(RunVar(z, p)) ** Sqrt(252))
    [] ind = "hurst" -> IF t <= p THEN Quiet(s)
         ELSE LET r == [i \in 1..p |-> LogReturn(b[1], t - i + 1)]       \* newest first
                  m == Mean(r)
                  cum == [i \in 1..p |-> SumSeq([j \in 1..i |-> r[j] -- m])]
                  range == MaxSeq(cum) -- MinSeq(cum)
                  sd == Sqrt(SumSeq([i \in 1..p |-> (r[i] -- m) ** (r[i] -- m)]) // p)
                  h == IfEq(range, 0, 0, Ln(range // sd) // Ln(p))
              IN  Out2(s, h, 2 -- h)
=============================================================================
