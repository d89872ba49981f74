----------------------------- MODULE IndVolume -----------------------------
(* Volume and money flow.                                                     *)
EXTENDS IndBase

VolumeNames == {"ad", "adosc", "obv", "nvi", "pvi", "pvt", "mfi", "cmf", "kvo", "emv", "fi", "wad", "vosc"}

VolumeValid(ind, o) ==
  CASE ind \in {"adosc", "kvo", "vosc"} -> P(o, 1) >= 1 /\ P(o, 2) >= P(o, 1)
    [] ind \in {"mfi", "cmf"} -> P(o, 1) >= 1
    [] ind = "fi" -> 1 \preceq o[1]
    [] OTHER -> TRUE

VolumeStart(ind, o) ==
  CASE ind \in {"adosc", "vosc"} -> P(o, 2) - 1
    [] ind = "mfi" -> P(o, 1)
    [] ind = "cmf" -> P(o, 1) - 1
    [] ind \in {"pvt", "kvo", "emv", "fi", "wad"} -> 1
    [] OTHER -> 0

VolumeInit(ind, o) ==
  CASE ind \in {"adosc"} -> <<0, 0, 0>>
    [] ind \in {"mfi", "cmf"} -> <<0, 0>>
    [] ind \in {"nvi", "pvi"} -> 1000
    [] ind = "kvo" -> [trend |-> 0, cm |-> 0, a |-> 0, c |-> 0]
    [] OTHER -> 0

(* accumulation/distribution of one bar: nothing for a bar without range *)
Flow(h, l, c, v) == IfEq(h, l, 0, (((c -- l) -- (h -- c)) // (h -- l)) ** v)

(* relative change; a previous value of zero leaves it undefined *)
Grow(s, x, y) == IF y \doteq 0 THEN Unk ELSE s ++ (s ** ((x -- y) // y))

RollV(sum, f(_), t, n, first) == (sum ++ f(t)) -- (IF t - n < first THEN 0 ELSE f(t - n))

VolumeStep(ind, o, s, b, t) ==
  LET p == IF Len(o) > 0 THEN P(o, 1) ELSE 0
      flow(i) == Flow(b[1][i], b[2][i], b[3][i], b[4][i])
      c == b[1]  v == b[2]                       \* for indicators of close and volume
  IN
  CASE ind = "ad" -> LET z == s ++ flow(t) IN Out1(z, z)
    [] ind = "adosc" ->
         LET z == s[1] ++ flow(t)
             a == IF t = 1 THEN z ELSE Smooth(s[2], z, EmaK(p))
             d == IF t = 1 THEN z ELSE Smooth(s[3], z, EmaK(P(o, 2)))
             r == <<z, a, d>>
         IN  IF t < P(o, 2) THEN Quiet(r) ELSE Out1(r, a -- d)
    [] ind = "obv" -> LET z == IF t = 1 THEN 0 ELSE IF c[t] \succ c[t-1] THEN s ++ v[t] ELSE IF c[t] \prec c[t-1] THEN s -- v[t] ELSE s IN Out1(z, z)
    [] ind = "nvi" -> LET z == IF t > 1 /\ v[t] \prec v[t-1] THEN Grow(s, c[t], c[t-1]) ELSE s IN Out1(z, z)
    [] ind = "pvi" -> LET z == IF t > 1 /\ v[t] \succ v[t-1] /\ v[t-1] \succ 0 THEN Grow(s, c[t], c[t-1]) ELSE s IN Out1(z, z)
    [] ind = "pvt" -> IF t = 1 THEN Quiet(v[1])
         ELSE LET z == s ++ IF c[t-1] \doteq 0 THEN Unk ELSE (v[t] ** (c[t] -- c[t-1])) // c[t-1] IN Out1(z, z)
    [] ind = "mfi" -> IF t = 1 THEN Quiet(s)
         ELSE LET typ(i) == ((b[1][i] ++ b[2][i]) ++ b[3][i]) // 3
                  bar(i) == typ(i) ** b[4][i]
                  up(i) == IfLt(typ(i-1), typ(i), bar(i), 0)
                  dn(i) == IfLt(typ(i), typ(i-1), bar(i), 0)
                  z == <<RollV(s[1], up, t, p, 2), RollV(s[2], dn, t, p, 2)>>
              IN  IF t <= p THEN Quiet(z) ELSE Out1(z, IfEq(z[1], 0, 0, 100 ** (z[1] // (z[1] ++ z[2]))))
    [] ind = "cmf" ->
         LET vol(i) == b[4][i]
             z == <<RollV(s[1], flow, t, p, 1), RollV(s[2], vol, t, p, 1)>>
         IN  IF t < p THEN Quiet(z) ELSE Out1(z, IfEq(z[2], 0, 0, z[1] // z[2]))
    [] ind = "kvo" -> IF t = 1 THEN Quiet(s)
         ELSE LET hlc(i) == (b[1][i] ++ b[2][i]) ++ b[3][i]
                  dm(i) == b[1][i] -- b[2][i]
                  dir == IF hlc(t) \succ hlc(t-1) THEN 1 ELSE IF hlc(t) \prec hlc(t-1) THEN -1 ELSE 0
                  turn == dir # 0 /\ dir # s.trend
                  trend == IF dir # 0 THEN dir ELSE s.trend
                  cm == (IF turn THEN dm(t-1) ELSE s.cm) ++ dm(t)
                  sure == (hlc(t) \doteq hlc(t-1)) \/ Clear(hlc(t), hlc(t-1))
                  f == IfEq(dm(t), 0, 0, (b[4][t] ** Abs(((2 ** dm(t)) // cm) -- 1)) ** (IF trend = -1 THEN -100 ELSE 100))
                  vf == IF sure THEN f ELSE Unk
                  a == IF t = 2 THEN vf ELSE Smooth(s.a, vf, EmaK(p))
                  d == IF t = 2 THEN vf ELSE Smooth(s.c, vf, EmaK(P(o, 2)))
              IN  Out1([trend |-> trend, cm |-> IF sure THEN cm ELSE Unk, a |-> a, c |-> d], a -- d)
    [] ind = "emv" -> IF t = 1 THEN Quiet(s)
         ELSE LET mid(i) == (b[1][i] ++ b[2][i]) // 2
                  d == mid(t) -- mid(t-1)
              IN  Out1(s, IfEq(mid(t), mid(t-1), 0, IF b[3][t] \doteq 0 THEN Unk ELSE ((d ** (b[1][t] -- b[2][t])) // b[3][t]) ** 10000))
    [] ind = "fi" -> IF t = 1 THEN Quiet(s)
         ELSE LET x == v[t] ** (c[t] -- c[t-1])
                  z == IF t = 2 THEN x ELSE Smooth(s, x, 2 // (P(o, 1) ++ 1))
              IN  Out1(z, z)
    [] ind = "wad" -> IF t = 1 THEN Quiet(s)
         ELSE LET x == b[3][t]  y == b[3][t-1]
                  z == IF x \succ y THEN s ++ (x -- RMin(y, b[2][t])) ELSE IF x \prec y THEN s ++ (x -- RMax(y, b[1][t])) ELSE s
              IN  Out1(z, z)
    [] ind = "vosc" -> IF t < P(o, 2) THEN Quiet(s)
         ELSE LET a == Mean(Win(b[1], t, p))  l == Mean(Win(b[1], t, P(o, 2)))
              IN  Out1(s, IfEq(a, l, 0, ((a -- l) // l) ** 100))
=============================================================================
