---------------------------- MODULE IndMomentum ----------------------------
(* Momentum oscillators.                                                      *)
EXTENDS IndBase

MomentumNames == {"rsi", "cmo", "macd", "apo", "ppo", "kst", "copp", "ultosc", "tsi", "smi", "rmi", "rvi", "pfe", "ao", "er"}

MomentumValid(ind, o) ==
  CASE ind = "macd" -> P(o, 1) >= 1 /\ P(o, 2) >= 2 /\ P(o, 2) >= P(o, 1) /\ P(o, 3) >= 1
    [] ind \in {"apo", "ppo"} -> P(o, 1) >= 1 /\ P(o, 2) >= 2 /\ P(o, 2) >= P(o, 1)
    [] ind = "kst"  -> P(o, 1) < P(o, 2) /\ P(o, 2) < P(o, 3) /\ P(o, 3) < P(o, 4) /\ \A i \in 1..8 : P(o, i) >= 1
    [] ind = "copp" -> (\A i \in 1..3 : 1 \preceq o[i]) /\ P(o, 1) <= P(o, 2)
    [] ind = "ultosc" -> P(o, 1) >= 1 /\ P(o, 2) >= P(o, 1) /\ P(o, 3) >= P(o, 2)
    [] ind \in {"tsi", "smi", "rmi"} -> \A i \in 1..Len(o) : 1 \preceq o[i]
    [] ind \in {"rvi", "pfe"} -> P(o, 1) >= 1 /\ P(o, 2) >= 1
    [] ind = "ao" -> TRUE
    [] OTHER -> P(o, 1) >= 1

MomentumStart(ind, o) ==
  CASE ind = "macd" -> P(o, 2) - 1
    [] ind \in {"apo", "ppo", "tsi"} -> 1
    [] ind = "kst" -> P(o, 4)
    [] ind = "copp" -> P(o, 2) + P(o, 3) - 1
    [] ind = "ultosc" -> P(o, 3)
    [] ind = "smi" -> P(o, 1) - 1
    [] ind = "rmi" -> P(o, 2)
    [] ind = "rvi" -> P(o, 2) - 1
    [] ind = "ao" -> 33
    [] OTHER -> P(o, 1)

MomentumInit(ind, o) ==
  CASE ind \in {"rsi", "cmo", "apo", "ppo", "rmi", "rvi"} -> <<0, 0>>
    [] ind = "macd" -> <<0, 0, 0>>
    [] ind = "kst" -> <<0, 0, 0, 0, 0>>
    [] ind = "copp" -> <<>>
    [] ind = "ultosc" -> <<0, 0, 0, 0, 0, 0>>
    [] ind \in {"tsi", "smi"} -> <<0, 0, 0, 0>>
    [] ind = "pfe" -> [sum |-> 0, ema |-> 0]
    [] OTHER -> 0

Up(v, t, n)   == RMax(v[t] -- v[t-n], 0)
Down(v, t, n) == RMax(v[t-n] -- v[t], 0)
Share(a, b)   == IfEq(a, 0, 0, 100 ** (a // (a ++ b)))     \* of a in a + b, in percent

(* a sum over the last n values of f, bar by bar; f(1..n-1) may be undefined *)
Roll(sum, f(_), t, n, first) == (sum ++ f(t)) -- (IF t - n < first THEN 0 ELSE f(t - n))

Rate(v, t, n) == (v[t] -- v[t-n]) // v[t-n]
RateM1(v, t, n) == (v[t] // v[t-n]) -- 1
RateGuarded(v, t, n) == IF v[t-n] \doteq 0 THEN 0 ELSE Rate(v, t, n)

(* end of the regression line of the last n *)
LineEnd(q) == LET n == Len(q)
                  sx == (n ** (n + 1)) // 2
                  sxx == ((n ** (n + 1)) ** (2 * n + 1)) // 6
                  sy == SumSeq(q)
                  b == ((n ** Dot(q, LinWeights(n))) -- (sx ** sy)) // ((n ** sxx) -- (sx ** sx))
              IN  ((sy -- (b ** sx)) // n) ++ (b ** n)

MomentumStep(ind, o, s, b, t) ==
  LET x == b[1]
      p == P(o, 1)
      EmaOn(prev, v, n, first) == IF t <= first THEN v ELSE Smooth(prev, v, EmaK(n))
  IN
  CASE ind = "rsi" -> IF t = 1 THEN Quiet(s)
         ELSE LET u == Up(x, t, 1)  d == Down(x, t, 1)
                  z == IF t <= p + 1 THEN <<s[1] ++ (u // p), s[2] ++ (d // p)>>
                       ELSE <<Smooth(s[1], u, 1 // p), Smooth(s[2], d, 1 // p)>>
              IN  IF t <= p THEN Quiet(z) ELSE Out1(z, Share(z[1], z[2]))
    [] ind = "cmo" -> IF t = 1 THEN Quiet(s)
         ELSE LET U(i) == Up(x, i, 1)  D(i) == Down(x, i, 1)
                  z == <<Roll(s[1], U, t, p, 2), Roll(s[2], D, t, p, 2)>>
                  n == z[1] ++ z[2]
              IN  IF t <= p THEN Quiet(z) ELSE Out1(z, IfEq(n, 0, 0, ((z[1] -- z[2]) // n) ** 100))
    [] ind \in {"macd", "apo", "ppo"} ->
         LET special == ind = "macd" /\ p = 12 /\ P(o, 2) = 26      \* the original's rounded constants
             k1 == IF special THEN R("0.15") ELSE EmaK(p)
             k2 == IF special THEN R("0.075") ELSE EmaK(P(o, 2))
             a == IF t = 1 THEN x[1] ELSE Smooth(s[1], x[t], k1)
             c == IF t = 1 THEN x[1] ELSE Smooth(s[2], x[t], k2)
             d == a -- c
         IN  IF ind = "macd"
             THEN LET g == IF t <= P(o, 2) THEN d ELSE Smooth(s[3], d, EmaK(P(o, 3)))
                      z == <<a, c, g>>
                  IN  IF t < P(o, 2) THEN Quiet(z) ELSE Out3(z, d, g, d -- g)
             ELSE IF t = 1 THEN Quiet(<<a, c>>)
             ELSE Out1(<<a, c>>, IF ind = "apo" THEN d ELSE IfEq(a, c, 0, (100 ** d) // c))
    [] ind = "kst" ->
         LET M(i) == IF t <= P(o, i) THEN 0
                     ELSE IF t = P(o, i) + 1 THEN RateGuarded(x, t, P(o, i))
                     ELSE Smooth(s[i], RateGuarded(x, t, P(o, i)), EmaK(P(o, 4 + i)))
             m == <<M(1), M(2), M(3), M(4)>>
             v == Dot(m, <<1, 2, 3, 4>>) // 10
             g == IF t <= P(o, 4) + 1 THEN v ELSE Smooth(s[5], v, 2 // 10)
             z == Append(m, g)
         IN  IF t <= P(o, 4) THEN Quiet(z) ELSE Out2(z, v, g)
    [] ind = "copp" -> LET l == P(o, 2)  w == P(o, 3) IN
         IF t <= l THEN Quiet(s)
         ELSE LET r == IF x[t-p] \doteq 0 \/ x[t-l] \doteq 0 THEN 0 ELSE (RateM1(x, t, p) ++ RateM1(x, t, l)) ** 50
                  z == Push(s, r, w)
              IN  IF Len(z) < w THEN Quiet(z) ELSE Out1(z, Wma(z))
    [] ind = "ultosc" -> IF t = 1 THEN Quiet(s)
         ELSE LET lo(i) == RMin(b[2][i], b[3][i-1])
                  hi(i) == RMax(b[1][i], b[3][i-1])
                  bp(i) == b[3][i] -- lo(i)
                  tr(i) == hi(i) -- lo(i)
                  z == [j \in 1..6 |-> IF j <= 3 THEN Roll(s[j], bp, t, P(o, j), 2) ELSE Roll(s[j], tr, t, P(o, j - 3), 2)]
                  Q(j) == IfEq(z[j], 0, 0, z[j] // z[j + 3])
              IN  IF t <= P(o, 3) THEN Quiet(z)
                  ELSE Out1(z, (SumSeq(<<4 ** Q(1), 2 ** Q(2), Q(3)>>) ** 100) // 7)
    [] ind = "tsi" -> IF t = 1 THEN Quiet(s)
         ELSE LET d == x[t] -- x[t-1]
                  a == IF t = 2 THEN d ELSE Smooth(s[1], d, EmaK(p))
                  c == IF t = 2 THEN d ELSE Smooth(s[2], a, EmaK(P(o, 2)))
                  e == IF t = 2 THEN Abs(d) ELSE Smooth(s[3], Abs(d), EmaK(p))
                  f == IF t = 2 THEN Abs(d) ELSE Smooth(s[4], e, EmaK(P(o, 2)))
              IN  Out1(<<a, c, e, f>>, IfEq(f, 0, 0, 100 ** (c // f)))
    [] ind = "smi" -> IF t < p THEN Quiet(s)
         ELSE LET hh == MaxSeq(Win(b[1], t, p))  ll == MinSeq(Win(b[2], t, p))
                  d == b[3][t] -- ((hh ++ ll) // 2)
                  r == hh -- ll
                  a == IF t = p THEN d ELSE Smooth(s[1], d, EmaK(P(o, 2)))
                  c == IF t = p THEN d ELSE Smooth(s[2], a, EmaK(P(o, 3)))
                  e == IF t = p THEN r ELSE Smooth(s[3], r, EmaK(P(o, 2)))
                  f == IF t = p THEN r ELSE Smooth(s[4], e, EmaK(P(o, 3)))
              IN  Out1(<<a, c, e, f>>, IfEq(f, 0, 0, (200 ** c) // f))
    [] ind = "rmi" -> LET l == P(o, 2) IN IF t <= l THEN Quiet(s)
         ELSE LET u == Up(x, t, l)  d == Down(x, t, l)
                  z == IF t = l + 1 THEN <<u, d>> ELSE <<Smooth(s[1], u, EmaK(p)), Smooth(s[2], d, EmaK(p))>>
              IN  Out1(z, Share(z[1], z[2]))
    [] ind = "rvi" -> LET n == P(o, 2) IN IF t < n THEN Quiet(s)
         ELSE IF n = 1 THEN Out1(s, Unk)
         ELSE LET e == x[t] -- LineEnd(Win(x, t, n))
                  v == (e ** e) // n
                  u == IfLt(0, e, Smooth(s[1], v, EmaK(p)), s[1])
                  d == IfLt(0, e, s[2], Smooth(s[2], v, EmaK(p)))
              IN  Out1(<<u, d>>, IfEq(u, 0, 50, 100 ** (u // (u ++ d))))
    [] ind = "pfe" -> IF t = 1 THEN Quiet(s)
         ELSE LET Step1(i) == Sqrt(((x[i] -- x[i-1]) ** (x[i] -- x[i-1])) ++ 1)
                  sum == Roll(s.sum, Step1, t, p, 2)
              IN  IF t <= p THEN Quiet([s EXCEPT !.sum = sum])
                  ELSE LET d == x[t] -- x[t-p]
                           len == 100 ** Sqrt((d ** d) ++ 100)
                           v == IfLt(0, d, len // sum, Neg(len) // sum)
                           e == IF t = p + 1 THEN v ELSE Smooth(s.ema, v, EmaK(P(o, 2)))
                       IN  Out1([sum |-> sum, ema |-> e], e)
    [] ind = "ao" -> IF t < 34 THEN Quiet(s)
         ELSE LET mid(n) == [i \in 1..n |-> (b[1][t - n + i] ++ b[2][t - n + i]) // 2]
              IN  Out1(s, Mean(mid(5)) -- Mean(mid(34)))
    [] ind = "er" -> IF t <= p THEN Quiet(s)
         ELSE LET n == Abs(x[t] -- x[t-p])
                  w == SumSeq([i \in 1..p |-> Abs(x[t-p+i] -- x[t-p+i-1])])
              IN  Out1(s, IfEq(n, 0, 0, n // w))
=============================================================================
