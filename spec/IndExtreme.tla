----------------------------- MODULE IndExtreme -----------------------------
(* Extremes of a sliding window and what is built on them.                    *)
EXTENDS IndBase

ExtremeNames == {"min", "max", "aroon", "aroonosc", "pc", "willr", "stoch", "ichi", "vhf", "mhlma", "fisher", "stochrsi", "mesastoch"}

MaxE(a, b) == IF a < b THEN b ELSE a

ExtremeValid(ind, o) ==
  CASE ind = "stoch" -> P(o, 1) >= 1 /\ P(o, 2) >= 1 /\ P(o, 3) >= 1
    [] ind = "ichi"  -> 0 < P(o, 1) /\ P(o, 1) <= P(o, 2) /\ P(o, 2) <= P(o, 3)
    [] ind \in {"mhlma", "mesastoch"} -> P(o, 1) >= 1 /\ P(o, 2) >= 1
    [] ind = "stochrsi" -> P(o, 1) >= 2
    [] OTHER -> P(o, 1) >= 1

ExtremeStart(ind, o) ==
  LET p == P(o, 1) IN
  CASE ind \in {"aroon", "aroonosc", "vhf"} -> p
    [] ind = "stoch" -> p + P(o, 2) + P(o, 3) - 3
    [] ind = "ichi"  -> P(o, 3) - 1 + P(o, 2)
    [] ind = "mhlma" -> P(o, 2) - 1
    [] ind = "stochrsi" -> 2 * p - 1
    [] ind = "mesastoch" -> p + 2
    [] OTHER -> p - 1

ExtremeInit(ind, o) ==
  CASE ind = "mhlma" -> [q |-> <<>>, ema |-> 0]
    [] ind = "stoch" -> [k |-> <<>>, d |-> <<>>]
    [] ind = "fisher" -> [v |-> 0, fish |-> 0]
    [] ind = "stochrsi" -> [up |-> 0, down |-> 0, q |-> <<>>]
    [] ind = "mesastoch" -> [hp |-> <<0, 0>>, filt |-> <<0, 0>>, win |-> <<>>, stoc |-> 0, res |-> <<0, 0>>]
    [] OTHER -> <<>>

(* bars since the most recent extreme of the n bars up to t *)
AgeMax(v, t, n) == LET m == MaxSeq(Win(v, t, n)) IN CHOOSE a \in 0..(n-1) : v[t-a] \doteq m /\ \A c \in 0..(a-1) : ~(v[t-c] \doteq m)
AgeMin(v, t, n) == LET m == MinSeq(Win(v, t, n)) IN CHOOSE a \in 0..(n-1) : v[t-a] \doteq m /\ \A c \in 0..(a-1) : ~(v[t-c] \doteq m)

Mid(hi, lo, t, n) == (MaxSeq(Win(hi, t, n)) ++ MinSeq(Win(lo, t, n))) // 2

(* Ehlers' two-pole high-pass and super smoother, with his rounded constants *)
Deg(x) == (x ** R("3.141592")) // 180
HpAlpha(n) == LET a == Deg(R("254.52") // n) IN ((Cos(a) ++ Sin(a)) -- 1) // Cos(a)   \* 0.707 * 360
SmA1 == Exp(Neg((R("1.414") ** R("3.141459")) // 10))
SmC2 == (2 ** SmA1) ** Cos(Deg(R("25.452")))          \* 1.414 * 180 / 10
SmC3 == Neg(SmA1 ** SmA1)
SmC1 == (1 -- SmC2) -- SmC3
SuperSmooth(x, x1, y1, y2) == ((SmC1 ** ((x ++ x1) // 2)) ++ (SmC2 ** y1)) ++ (SmC3 ** y2)

ExtremeStep(ind, o, s, b, t) ==
  LET p == P(o, 1)
      full == t >= p
      Plain(v) == IF full THEN Out1(s, v) ELSE Quiet(s)
  IN
  CASE ind = "min" -> Plain(MinSeq(Win(b[1], t, p)))
    [] ind = "max" -> Plain(MaxSeq(Win(b[1], t, p)))
    [] ind = "pc"  -> IF ~full THEN Quiet(s) ELSE Out2(s, MinSeq(Win(b[2], t, p)), MaxSeq(Win(b[1], t, p)))
    [] ind = "aroon" -> IF t <= p THEN Quiet(s)
         ELSE Out2(s, ((p - AgeMin(b[2], t, p + 1)) * 100) // p, ((p - AgeMax(b[1], t, p + 1)) * 100) // p)
    [] ind = "aroonosc" -> IF t <= p THEN Quiet(s)
         ELSE Out1(s, ((AgeMin(b[2], t, p + 1) - AgeMax(b[1], t, p + 1)) * 100) // p)
    [] ind = "willr" -> Plain(LET hi == MaxSeq(Win(b[1], t, p))  lo == MinSeq(Win(b[2], t, p))
                              IN  IfEq(hi, lo, 0, ((b[3][t] -- hi) // (hi -- lo)) ** 100))
    [] ind = "stoch" -> IF ~full THEN Quiet(s)
         ELSE LET hi == MaxSeq(Win(b[1], t, p))  lo == MinSeq(Win(b[2], t, p))
                  fast == IfEq(hi, lo, 0, ((b[3][t] -- lo) // (hi -- lo)) ** 100)
                  z == Push(s.k, fast, P(o, 2))
              IN  IF Len(z) < P(o, 2) THEN Quiet([s EXCEPT !.k = z])
                  ELSE LET d == Push(s.d, Mean(z), P(o, 3))  r == [k |-> z, d |-> d]
                       IN  IF Len(d) < P(o, 3) THEN Quiet(r) ELSE Out2(r, Newest(d), Mean(d))
    [] ind = "ichi" -> LET n == P(o, 2)  m == P(o, 3)  u == t - n IN
         IF u < m THEN Quiet(s)
         ELSE [s |-> s, y |-> <<Mid(b[1], b[2], t, p), Mid(b[1], b[2], t, n),
                                (Mid(b[1], b[2], u, p) ++ Mid(b[1], b[2], u, n)) // 2, Mid(b[1], b[2], u, m)>>]
    [] ind = "vhf" -> IF t <= p THEN Quiet(s)
         ELSE LET w == Win(b[1], t, p)  range == MaxSeq(w) -- MinSeq(w)
                  path == SumSeq([i \in 1..p |-> Abs(b[1][t - p + i] -- b[1][t - p + i - 1])])
              IN  Out1(s, IfEq(range, 0, 0, range // path))
    [] ind = "mhlma" ->
         LET n == IF t < p THEN t ELSE p
             x == Mid(b[1], b[1], t, n)
             e == IF t = 1 THEN x ELSE Smooth(s.ema, x, EmaK(P(o, 2)))
             z == [q |-> Push(s.q, x, P(o, 2)), ema |-> e]
         IN  IF t < P(o, 2) THEN Quiet(z) ELSE Out2(z, Mean(z.q), e)
    [] ind = "fisher" -> IF ~full THEN Quiet(s)
         ELSE LET hl == [i \in 1..p |-> (b[1][t - p + i] ++ b[2][t - p + i]) // 2]
                  hi == MaxSeq(hl)  lo == MinSeq(hl)
                  range == IfEq(hi, lo, R("0.001"), hi -- lo)
                  v == (R("0.66") ** (((hl[p] -- lo) // range) -- R("0.5"))) ++ (R("0.67") ** s.v)
                  c == IfLt(R("0.99"), v, R("0.999"), IfLt(v, R("-0.99"), R("-0.999"), v))
                  f == (Ln((1 ++ c) // (1 -- c)) ++ s.fish) // 2
              IN  Out2([v |-> c, fish |-> f], f, s.fish)
    [] ind = "stochrsi" -> IF t = 1 THEN Quiet(s)
         ELSE LET d == b[1][t] -- b[1][t-1]
                  u == RMax(d, 0)  w == RMax(Neg(d), 0)
                  up == IF t <= p + 1 THEN s.up ++ (u // p) ELSE Smooth(s.up, u, 1 // p)
                  dn == IF t <= p + 1 THEN s.down ++ (w // p) ELSE Smooth(s.down, w, 1 // p)
                  r == IfEq(up, 0, 0, 100 ** (up // (up ++ dn)))
                  q == IF t <= p THEN <<>> ELSE Push(s.q, r, p)
                  z == [up |-> up, down |-> dn, q |-> q]
              IN  IF Len(q) < p THEN Quiet(z)
                  ELSE Out1(z, LET hi == MaxSeq(q)  lo == MinSeq(q)
                                    top == IfEq(hi, 0, hi, IfEq(hi, 100, hi, Fuzz(hi, R("1e-12"))))     \* on a flat stretch the index is constant but for rounding
                                IN  IF ~Clear(top, lo) THEN Unk ELSE IfEq(top, lo, 0, (r -- lo) // (hi -- lo)))
    [] ind = "mesastoch" -> IF t <= 2 THEN Quiet(s)
         ELSE LET a == HpAlpha(P(o, 2))
                  g == 1 -- (a // 2)
                  h == 1 -- a
                  x == b[1]
                  hp == (((g ** g) ** ((x[t] -- (2 ** x[t-1])) ++ x[t-2])) ++ ((2 ** h) ** s.hp[1])) -- ((h ** h) ** s.hp[2])
                  f == SuperSmooth(hp, s.hp[1], s.filt[1], s.filt[2])
                  w == Push(s.win, f, p)
                  lo == MinSeq(w)  hi == MaxSeq(w)
                  c == IF t <= p + 2 THEN 0 ELSE IfEq(f, lo, 0, (f -- lo) // (hi -- lo))
                  r == IF t <= p + 2 THEN 0 ELSE SuperSmooth(c, s.stoc, s.res[1], s.res[2])
              IN  Out1([hp |-> <<hp, s.hp[1]>>, filt |-> <<f, s.filt[1]>>, win |-> w, stoc |-> c, res |-> <<r, s.res[1]>>], r)
=============================================================================
