----------------------------- MODULE RingsFar ------------------------------
(* The buffers of Rings after histories far longer than a behaviour that      *)
(* keeps its history could be: the numbers pushed are those of a fixed        *)
(* sequence, so the contents follow from their count.                         *)
(*   ring/heap: every number is assigned, with a step before all but the first *)
(*   again: a heap ring that was filled, then resized                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, TraceIO
CONSTANTS Most           \* no capacity above it
VARIABLES kind, cap, n
vars == <<kind, cap, n>>

Value(i) == LET j == i % 1009 IN ((j * j * 7 + 3 * j + i \div 1009) % 1013) - 500
Fixed == {64, 100, 129, 256, 1000}
Free  == {c \in {1, 2, 3, 61, 64, 127, 128, 129, 200, 255, 256, 257, 1000, 1025, 4097, 32769, 40000} : c <= Most}
Rings_ == {"ring", "heap", "again"}
CapsOf(k) == IF k = "ring" THEN Fixed ELSE Free
Ns(c) == {c - 1, c, c + 1, 2 * c - 1, 2 * c, 3 * c + c \div 3, 4 * c - 2, 70000, 70000 + c \div 2, 70000 + c \div 5} \ {0}

At(m, a)   == IF a < m THEN Value(m - 1 - a) ELSE 0
AgesOf(c, m) == LET w == {0, 1, 2, c \div 3, c \div 2, c - 3, c - 2, c - 1} IN {a \in w : 0 <= a /\ a < c /\ (kind \in Rings_ \/ a < m)}
PsOf(c)    == IF kind \notin Rings_ THEN {} ELSE {p \in {1, 2, c \div 4, c \div 2, (3 * c) \div 4, c - 1, c} : 1 <= p /\ p <= c}
(* maxima and minima of the last p for every p in ps, and the sum: one pass over the contents, newest first *)
Fold(m, len, ps) ==
  FoldLeft(LAMBDA w, b : LET x == At(m, b)
                             hi == IF b = 0 \/ x > w.hi THEN x ELSE w.hi
                             lo == IF b = 0 \/ x < w.lo THEN x ELSE w.lo
                             in == (b + 1) \in ps
                         IN  [hi |-> hi, lo |-> lo, sum |-> w.sum + x, top |-> IF in THEN Append(w.top, hi) ELSE w.top, low |-> IF in THEN Append(w.low, lo) ELSE w.low],
           [hi |-> 0, lo |-> 0, sum |-> 0, top |-> <<>>, low |-> <<>>], [i \in 1..len |-> i - 1])
Sorted(S)  == SetToSortSeq(S, <)
Case == LET as == Sorted(AgesOf(cap, n))
            ps == Sorted(PsOf(cap))
            f  == IF kind \in Rings_ THEN Fold(n, cap, PsOf(cap)) ELSE Fold(n, IF kind # "sum" THEN 0 ELSE IF n < cap THEN n ELSE cap, {})
        IN  [kind |-> kind, cap |-> cap, n |-> n, ages |-> as, ps |-> ps,
             at |-> [i \in 1..Len(as) |-> At(n, as[i])], top |-> f.top, low |-> f.low, sum |-> f.sum]
Init == /\ kind \in {"ring", "heap", "again", "sum", "quiet", "multi"}
        /\ cap \in CapsOf(kind)
        /\ n \in Ns(cap)
Next == FALSE /\ UNCHANGED vars
Told == Report("far", Case)
============================================================================
