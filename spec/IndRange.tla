------------------------------ MODULE IndRange ------------------------------
(* True range, directional movement, trailing stops and volatility bands.     *)
EXTENDS IndBase

RangeNames == {"tr", "atr", "natr", "dm", "dx", "di", "adx", "adxr", "vi", "psar", "kc", "abands", "ce", "cmi", "mass", "cvi"}

RangeValid(ind, o) ==
  CASE ind = "tr" -> TRUE
    [] ind \in {"adx", "adxr"} -> P(o, 1) >= 2
    [] ind = "psar" -> 0 \prec o[1] /\ o[1] \prec o[2]
    [] ind = "kc" -> 1 \preceq o[1] /\ 0 \preceq o[2]
    [] OTHER -> P(o, 1) >= 1

RangeStart(ind, o) ==
  CASE ind \in {"tr", "kc"} -> 0
    [] ind = "psar" -> 1
    [] ind = "vi" -> P(o, 1)
    [] ind = "adx" -> 2 * (P(o, 1) - 1)
    [] ind = "adxr" -> 3 * (P(o, 1) - 1)
    [] ind = "mass" -> 16 + P(o, 1) - 1
    [] ind = "cvi" -> 2 * P(o, 1) - 1
    [] OTHER -> P(o, 1) - 1

RangeInit(ind, o) ==
  CASE ind \in {"dm", "dx", "adx", "adxr", "di"} -> [up |-> 0, dn |-> 0, tr |-> 0, adx |-> 0, q |-> <<>>]
    [] ind = "psar" -> [long |-> TRUE, open |-> FALSE, sar |-> 0, ext |-> 0, acc |-> 0]
    [] ind \in {"vi", "abands"} -> <<0, 0, 0>>
    [] ind = "kc" -> <<0, 0>>
    [] ind = "mass" -> [a |-> 0, d |-> 0, sum |-> 0, q |-> <<>>]
    [] ind = "cvi" -> <<>>
    [] OTHER -> 0

TrueRange(b, t) ==                                  \* inputs are high, low, close
  LET h == b[1][t]  l == b[2][t]  c == b[3][t-1]
  IN  IF t = 1 THEN h -- l ELSE RMax(h -- l, RMax(Abs(h -- c), Abs(l -- c)))

(* directional movement of bar t > 1: the larger of the outside moves, none when both are equal... *)
RawUp(b, t) == RMax0(b[1][t] -- b[1][t-1])
RawDn(b, t) == RMax0(b[2][t-1] -- b[2][t])
MoveUp(b, t) == IfLt(RawUp(b, t), RawDn(b, t), 0, RawUp(b, t))
MoveDn(b, t) == IfLt(RawDn(b, t), RawUp(b, t), 0, RawDn(b, t))

(* Wilder's sum: plain over the first bars (of which bar 1 has no move), then decaying *)
WilderSum(sum, x, t, p) == IF t <= p THEN sum ++ x ELSE (sum ** ((p - 1) // p)) ++ x
WilderMean(mean, x, t, p) == IF t <= p THEN mean ++ (x // p) ELSE Smooth(mean, x, 1 // p)

RollG(sum, f(_), t, n, first) == (sum ++ f(t)) -- (IF t - n < first THEN 0 ELSE f(t - n))

Wedge(b, i) == LET s == b[1][i] ++ b[2][i] IN IfLt(0, s, (4 ** (b[1][i] -- b[2][i])) // s, 0)

RangeStep(ind, o, s, b, t) ==
  LET p == IF Len(o) > 0 THEN P(o, 1) ELSE 0
      tr(i) == TrueRange(b, i)
  IN
  CASE ind = "tr" -> Out1(s, tr(t))
    [] ind \in {"atr", "natr"} ->
         LET a == WilderMean(s, tr(t), t, p)
         IN  IF t < p THEN Quiet(a) ELSE Out1(a, IF ind = "atr" THEN a ELSE IfEq(a, 0, 0, (100 ** a) // b[3][t]))
    [] ind \in {"dm", "dx", "di", "adx", "adxr"} ->
         LET up == IF t = 1 THEN 0 ELSE WilderSum(s.up, MoveUp(b, t), t, p)
             dn == IF t = 1 THEN 0 ELSE WilderSum(s.dn, MoveDn(b, t), t, p)
             rg == IF t = 1 \/ ind # "di" THEN 0 ELSE WilderSum(s.tr, tr(t), t, p)
             dx == IfEq(up ++ dn, 0, 0, (Abs(up -- dn) // (up ++ dn)) ** 100)
             adx == IF t < p THEN 0 ELSE WilderMean(s.adx, dx, t - p + 1, p)
             z == [up |-> up, dn |-> dn, tr |-> rg, adx |-> adx, q |-> IF ind = "adxr" /\ t >= 2 * p - 1 THEN Push(s.q, adx, p) ELSE <<>>]
         IN  IF t <= RangeStart(ind, o) THEN Quiet(z)
             ELSE CASE ind = "dm" -> Out2(z, up, dn)
                    [] ind = "dx" -> Out1(z, dx)
                    [] ind = "di" -> Out2(z, IfEq(up, 0, 0, (100 ** up) // rg), IfEq(dn, 0, 0, (100 ** dn) // rg))
                    [] ind = "adx" -> Out1(z, adx)
                    [] OTHER -> Out1(z, (adx ++ z.q[1]) // 2)
    [] ind = "vi" -> IF t = 1 THEN Quiet(s)
         ELSE LET plus(i) == Abs(b[1][i] -- b[2][i-1])
                  minus(i) == Abs(b[2][i] -- b[1][i-1])
                  z == <<RollG(s[1], plus, t, p, 2), RollG(s[2], minus, t, p, 2), RollG(s[3], tr, t, p, 2)>>
              IN  IF t <= p THEN Quiet(z) ELSE Out2(z, IfEq(z[1], 0, 0, z[1] // z[3]), IfEq(z[2], 0, 0, z[2] // z[3]))
    [] ind = "psar" ->
         LET h == b[1]  l == b[2]  step == o[1]  top == o[2] IN
         IF t = 1 THEN Quiet(s)
         ELSE LET a == h[1] ++ l[1]  c == h[2] ++ l[2]
                  first == t = 2
                  blur == (first /\ ~Clear(a, c) /\ ~(a \doteq c)) \/ s.open
                  long == IF first THEN a \preceq c ELSE s.long
                  ext == IF first THEN (IF long THEN h[1] ELSE l[1]) ELSE s.ext
                  sar0 == IF first THEN (IF long THEN l[1] ELSE h[1]) ELSE s.sar
                  acc == IF first THEN step ELSE s.acc
                  m == sar0 ++ ((ext -- sar0) ** acc)
                  sar == IF long THEN LET x == IF t > 2 THEN RMin(m, l[t-2]) ELSE m IN RMin(x, l[t-1])
                                 ELSE LET x == IF t > 2 THEN RMax(m, h[t-2]) ELSE m IN RMax(x, h[t-1])
                  further == IF long THEN h[t] \succ ext ELSE l[t] \prec ext
                  acc2 == IF further THEN RMin(acc ++ step, top) ELSE acc
                  ext2 == IF further THEN (IF long THEN h[t] ELSE l[t]) ELSE ext
                  edge == IF long THEN l[t] ELSE h[t]
                  turn == IF long THEN edge \prec sar ELSE edge \succ sar
                  z == [long |-> long # turn, open |-> blur \/ ~Clear(edge, sar),
                        sar |-> IF turn THEN ext2 ELSE sar,
                        ext |-> IF turn THEN edge ELSE ext2,
                        acc |-> IF turn THEN step ELSE acc2]
              IN  Out1(z, IF z.open THEN Unk ELSE z.sar)
    [] ind = "kc" ->
         LET k == 2 // (o[1] ++ 1)
             z == IF t = 1 THEN <<b[3][1], tr(1)>> ELSE <<Smooth(s[1], b[3][t], k), Smooth(s[2], tr(t), k)>>
         IN  Out3(z, z[1] -- (o[2] ** z[2]), z[1], z[1] ++ (o[2] ** z[2]))
    [] ind = "abands" ->
         LET hi(i) == (1 ++ Wedge(b, i)) ** b[1][i]
             lo(i) == (1 -- Wedge(b, i)) ** b[2][i]
             cl(i) == b[3][i]
             z == <<RollG(s[1], lo, t, p, 1), RollG(s[2], hi, t, p, 1), RollG(s[3], cl, t, p, 1)>>
         IN  IF t < p THEN Quiet(z) ELSE Out3(z, z[1] // p, z[2] // p, z[3] // p)
    [] ind = "ce" ->
         LET a == WilderMean(s, tr(t), t, p)
         IN  IF t < p THEN Quiet(a) ELSE Out2(a, MaxSeq(Win(b[1], t, p)) -- (o[2] ** a), MinSeq(Win(b[2], t, p)) ++ (o[2] ** a))
    [] ind = "cmi" ->
         LET sum == RollG(s, tr, t, p, 1) IN
         IF t < p THEN Quiet(sum)
         ELSE LET w == [i \in 1..p |-> tr(t - p + i)]
                  hi == MaxSeq(w)  lo == MinSeq(w)
              IN  Out1(sum, IF p = 1 THEN Unk ELSE IfEq(hi, lo, Unk, (Ln((hi -- lo) // sum) // Ln(p)) ** 100))
    [] ind = "mass" ->
         LET k == EmaK(9)
             r == b[1][t] -- b[2][t]
             a == IF t = 1 THEN r ELSE Smooth(s.a, r, k)
             d == IF t < 9 THEN 0 ELSE IF t = 9 THEN a ELSE Smooth(s.d, a, k)
             x == IfEq(a, 0, 0, a // d)
             q == IF t < 17 THEN <<>> ELSE Push(s.q, x, p)
             sum == IF t < 17 THEN 0 ELSE (s.sum ++ x) -- (IF Len(s.q) = p THEN s.q[1] ELSE 0)
             z == [a |-> a, d |-> d, sum |-> sum, q |-> q]
         IN  IF Len(q) < p THEN Quiet(z) ELSE Out1(z, sum)
    [] ind = "cvi" ->
         LET r == b[1][t] -- b[2][t]
             v == IF t = 1 THEN r ELSE Smooth(Newest(s), r, EmaK(p))
             z == Push(s, v, p + 1)
         IN  IF t < 2 * p THEN Quiet(z) ELSE Out1(z, IfEq(v, z[1], 0, ((v -- z[1]) // z[1]) ** 100))
=============================================================================
