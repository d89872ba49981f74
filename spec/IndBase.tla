------------------------------ MODULE IndBase ------------------------------
(* Vocabulary shared by the definitions of the indicators.                   *)
(*                                                                           *)
(* An indicator is a transition system over bars: Init(ind, o) is its state  *)
(* before any bar, Step(ind, o, s, b, t) consumes bar t of the series b (one *)
(* sequence per input) in state s and yields [s |-> next state, y |-> the    *)
(* outputs reported for bar t].  y is meaningful for t > Start(ind, o) only. *)
EXTENDS Real, TLC

P(o, k) == ToInt(o[k])                     \* an option that is a whole number

Win(v, t, n) == SubSeq(v, t - n + 1, t)    \* the n elements of v up to t

(* The elements 1..n of x(i), as a sequence *)
Gather(n, x(_)) == [i \in 1..n |-> x(i)]

Mean(s) == SumSeq(s) // Len(s)
Out1(s, a) == [s |-> s, y |-> <<a>>]
Out2(s, a, c) == [s |-> s, y |-> <<a, c>>]
Out3(s, a, c, d) == [s |-> s, y |-> <<a, c, d>>]
Quiet(s) == [s |-> s, y |-> <<>>]          \* nothing reported yet

Safe(a, b) == IfEq(b, 0, 0, a // b)        \* the quotient, zero for a zero divisor

(* A bounded queue of reals: the last n. *)
Push(q, x, n) == IF Len(q) < n THEN Append(q, x) ELSE Append(SubSeq(q, Len(q) - n + 2, Len(q)), x)
Newest(q) == q[Len(q)]

(* Exponential smoothing towards x. *)
Smooth(prev, x, k) == prev ++ (x -- prev) ** k
EmaK(period) == 2 // (period + 1)

(* mean of the sequence q with weights 1..Len(q), heaviest last *)
LinWeights(n) == [i \in 1..n |-> i]
Wma(q) == Dot(q, LinWeights(Len(q))) // ((Len(q) ** (Len(q) + 1)) // 2)

SqSeq(q) == [i \in 1..Len(q) |-> q[i] ** q[i]]
(* population variance as E[x^2] - E[x]^2 *)
VarOf(q) == (SumSeq(SqSeq(q)) // Len(q)) -- (Mean(q) ** Mean(q))
RMax0(x) == RMax(x, 0)
=============================================================================
