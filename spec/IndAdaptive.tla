---------------------------- MODULE IndAdaptive ----------------------------
(* Adaptive averages and the measurement of the dominant cycle.               *)
EXTENDS IndBase

AdaptiveNames == {"kama", "vidya", "frama", "mama", "hd", "arsi", "msw"}

AdaptiveValid(ind, o) ==
  CASE ind \in {"kama", "msw"} -> P(o, 1) >= 1
    [] ind = "vidya" -> P(o, 1) >= 1 /\ P(o, 2) >= P(o, 1) /\ P(o, 2) >= 2 /\ 0 \preceq o[3] /\ o[3] \preceq 1
    [] ind = "frama" -> P(o, 1) >= 1 /\ P(o, 1) % 2 = 0 /\ 2 \preceq o[2]
    [] ind = "mama" -> 0 \preceq o[1] /\ o[1] \preceq 1 /\ 0 \preceq o[2] /\ o[2] \preceq 1
    [] ind = "arsi" -> 0 \prec o[1]
    [] OTHER -> TRUE

AdaptiveStart(ind, o) ==
  CASE ind = "kama" -> P(o, 1) - 1
    [] ind = "vidya" -> P(o, 2) - 2
    [] ind = "frama" -> 0
    [] ind = "mama" -> 6
    [] ind = "msw" -> P(o, 1)
    [] OTHER -> 5

(* The in-phase and quadrature components of the detrended price, and the period of its phasor. *)
Zeros(n) == [i \in 1..n |-> 0]
Quadrature0 == [smooth |-> Zeros(7), det |-> Zeros(7), i1 |-> Zeros(7), q1 |-> Zeros(7), i2 |-> 0, q2 |-> 0, re |-> 0, im |-> 0,
                per |-> <<0, 0>>, sp |-> 0]

Shift(x, q) == <<x>> \o SubSeq(q, 1, Len(q) - 1)          \* newest first
Hilbert(q, per) == ((((R("0.0962") ** q[1]) ++ (R("0.5769") ** q[3])) -- (R("0.5769") ** q[5])) -- (R("0.0962") ** q[7])) **
                   ((R("0.075") ** per) ++ R("0.54"))
Fade(x, prev) == (R("0.2") ** x) ++ (R("0.8") ** prev)

Bounded(x, prev) == RMin(RMax(RMax(RMin(x, R("1.5") ** prev), R("0.67") ** prev), 6), 50)

(* full: the angle of a whole turn *)
Quadrature(s, v, t, full) ==
  LET prev == s.per[1]
      smooth == Shift(((((4 ** v[t]) ++ (3 ** v[t-1])) ++ (2 ** v[t-2])) ++ v[t-3]) // 10, s.smooth)
      det == Shift(Hilbert(smooth, prev), s.det)
      q1 == Shift(Hilbert(det, prev), s.q1)
      i1 == Shift(det[4], s.i1)
      i2 == Fade(i1[1] -- Hilbert(q1, prev), s.i2)
      q2 == Fade(q1[1] ++ Hilbert(i1, prev), s.q2)
      re == Fade((i2 ** s.i2) ++ (q2 ** s.q2), s.re)
      im == Fade((i2 ** s.q2) -- (q2 ** s.i2), s.im)
      \* without a phasor the period stays what it was; the code's ring buffer holds the one before it: open where that matters
      same == IF Bounded(s.per[1], prev) \doteq Bounded(s.per[2], prev) THEN Bounded(s.per[1], prev) ELSE Unk
      raw == IfEq(re, 0, same, IfEq(im, 0, same, Bounded(full // Atan(im // re), prev)))
      per == Fade(raw, prev)
  IN  [smooth |-> smooth, det |-> det, i1 |-> i1, q1 |-> q1, i2 |-> i2, q2 |-> q2, re |-> re, im |-> im, per |-> <<per, prev>>,
       sp |-> (R("0.33") ** per) ++ (R("0.67") ** s.sp)]

AdaptiveInit(ind, o) ==
  CASE ind \in {"kama"} -> <<0, 0>>
    [] ind = "vidya" -> [s |-> 0, s2 |-> 0, l |-> 0, l2 |-> 0, v |-> 0]
    [] ind \in {"hd", "arsi"} -> Quadrature0
    [] ind = "mama" -> [q |-> Quadrature0, phase |-> 0, m |-> 0, f |-> 0]
    [] OTHER -> 0

RollA(sum, f(_), t, n, first) == (sum ++ f(t)) -- (IF t - n < first THEN 0 ELSE f(t - n))

AdaptiveStep(ind, o, s, b, t) ==
  LET v == b[1]
      p == IF Len(o) > 0 THEN P(o, 1) ELSE 0
  IN
  CASE ind = "kama" ->
         LET move(i) == Abs(v[i] -- v[i-1])
             sum == IF t = 1 THEN 0 ELSE RollA(s[1], move, t, p, 2)
         IN  IF t < p THEN Quiet(<<sum, 0>>)
             ELSE IF t = p THEN Out1(<<sum, v[t]>>, v[t])
             ELSE LET er == IfEq(sum, 0, 1, Abs(v[t] -- v[t-p]) // sum)
                      fast == 2 // 3
                      slow == 2 // 31
                      c == (er ** (fast -- slow)) ++ slow
                      k == Smooth(s[2], v[t], c ** c)
                  IN  Out1(<<sum, k>>, k)
    [] ind = "vidya" ->
         LET n == P(o, 2)
             x(i) == v[i]
             xx(i) == v[i] ** v[i]
             r == [s |-> RollA(s.s, x, t, p, 1), s2 |-> RollA(s.s2, xx, t, p, 1), l |-> RollA(s.l, x, t, n, 1), l2 |-> RollA(s.l2, xx, t, n, 1), v |-> s.v]
             sd(sum, sum2, m) == Sqrt(RMax0((sum2 // m) -- ((sum // m) ** (sum // m))))
         IN  IF t < n - 1 THEN Quiet(r)
             ELSE LET a == sd(r.s, r.s2, p)
                      l == sd(r.l, r.l2, n)
                      k == IfEq(a, 0, 0, a // l) ** o[3]
                      y == IF t = n - 1 THEN v[t] ELSE Smooth(s.v, v[t], k)
                  IN  Out1([r EXCEPT !.v = y], y)
    [] ind = "frama" ->
         LET mid == (b[1][t] ++ b[2][t]) // 2
             h == p \div 2
             span(u, n) == (MaxSeq(Win(b[1], u, n)) -- MinSeq(Win(b[2], u, n))) // n
         IN  IF t <= p THEN Out1(mid, mid)
             ELSE LET n3 == span(t, p)  n2 == span(t - h, h)  n1 == span(t, h)
                      d == IF 0 \prec n1 /\ 0 \prec n2 /\ 0 \prec n3 THEN (Ln(n1 ++ n2) -- Ln(n3)) // Ln(2) ELSE 0
                      a == RMin(RMax(Exp(Ln(2 // (o[2] ++ 1)) ** (d -- 1)), R("0.01")), 1)
                      f == (a ** mid) ++ ((1 -- a) ** s)
                  IN  Out1(f, f)
    [] ind = "mama" -> IF t <= 6 THEN Quiet(s)
         ELSE LET q == Quadrature(s.q, v, t, 360)
                  i1 == q.i1[1]
                  phase == IfEq(i1, 0, 0, Atan(q.q1[1] // i1))
                  a == RMax(o[2], o[1] // RMax(1, s.phase -- phase))
                  m == (a ** v[t]) ++ ((1 -- a) ** s.m)
                  f == ((a // 2) ** m) ++ ((1 -- (a // 2)) ** s.f)
              IN  Out2([q |-> q, phase |-> phase, m |-> m, f |-> f], m, f)
    [] ind = "hd" -> IF t <= 5 THEN Quiet(s) ELSE LET q == Quadrature(s, v, t, 2 ** Pi) IN Out1(q, q.sp)
    [] ind = "arsi" -> IF t <= 5 THEN Quiet(s)
         ELSE LET q == Quadrature(s, v, t, 2 ** Pi)
                  n == ToInt(o[1] ** q.sp)
                  m == IF n < t - 1 THEN n ELSE t - 1
                  up == SumSeq([i \in 1..m |-> RMax0(v[t-i+1] -- v[t-i])])
                  dn == SumSeq([i \in 1..m |-> RMax0(v[t-i] -- v[t-i+1])])
              IN  Out1(q, IF n = OpenInt THEN Unk ELSE IfEq(up ++ dn, 0, 0, (100 ** up) // (up ++ dn)))
    [] ind = "msw" -> IF t <= p THEN Quiet(s)
         ELSE LET pi == R("3.1415926")
                  ang(j) == ((2 ** pi) ** j) // p
                  rp == SumSeq([j \in 1..p |-> Cos(ang(j - 1)) ** v[t - j + 1]])
                  ip == SumSeq([j \in 1..p |-> Sin(ang(j - 1)) ** v[t - j + 1]])
                  a == IfLt(R("0.001"), Abs(rp), Atan(ip // rp), pi ** IfLt(ip, 0, -1, 1))
                  c == (a ++ IfLt(rp, 0, pi, 0)) ++ (pi // 2)
                  d == IfLt(c, 0, c ++ (2 ** pi), c)
                  e == IfLt(2 ** pi, d, d -- (2 ** pi), d)
              IN  Out2(s, Sin(e), Sin(e ++ (pi // 4)))
=============================================================================
