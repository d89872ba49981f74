------------------------------- MODULE Rings -------------------------------
(* The three buffers the indicators are built on.                            *)
(*   ring   utils/ringbuf.hh with a fixed capacity                           *)
(*   heap   utils/ringbuf.hh with a capacity chosen at run time              *)
(*   sum    utils/buffer.h: the last `cap` numbers and their sum             *)
(*   multi  utils/localbuffer.h: several buffers in one block of memory      *)
(* A ring is a wheel of `cap` cells: step() turns it, so that the oldest     *)
(* cell becomes the current one, and assignment writes the current cell.     *)
(* cell[b][k+1] is the cell k steps before the current one of buffer b.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, TraceIO
CONSTANTS Kind, Caps, Values, Depth, Long
SmallCaps == {<<1>>, <<2>>, <<3>>, <<4>>}
MoreCaps  == {<<5>>}
MultiCaps == {<<1, 2, 2>>, <<2, 1, 3>>, <<3, 2, 1>>}
LongCaps  == {<<2>>, <<3>>, <<7>>, <<8>>, <<16>>, <<50>>}
LongMulti == {<<5, 8, 13>>, <<1, 20, 3>>, <<9, 1, 30>>, <<2, 2, 2>>}
Signed == {0-1, 1, 2}
Plain  == {1, 2, 3}
Two    == {1, 2}
Many   == {0-3, 0-1, 0, 1, 2, 5}
VARIABLES cap,    \* capacities, one per buffer
          cell,   \* one sequence per buffer, newest first; sum and multi: only what was pushed
          turn,   \* how often each buffer was stepped, modulo its capacity: its place in memory
          first,  \* the capacities at the start
          path,   \* the operations so far
          seen    \* (long runs) what was observable after every operation
vars == <<cap, cell, turn, first, path, seen>>

Empty(n)  == IF Kind \in {"ring", "heap"} THEN [i \in 1..n |-> 0] ELSE <<>>
Cut(s, n) == SubSeq(s, 1, IF Len(s) < n THEN Len(s) ELSE n)
Sum(s)    == FoldLeft(LAMBDA a, b : a + b, 0, s)
Top(s, p) == CHOOSE x \in {s[i] : i \in 1..p} : \A i \in 1..p : s[i] <= x
Low(s, p) == CHOOSE x \in {s[i] : i \in 1..p} : \A i \in 1..p : x <= s[i]

(* What a user of the buffers can see *)
Look(c) == IF Kind \in {"ring", "heap"}
           THEN [at |-> c[1], top |-> [p \in 1..Len(c[1]) |-> Top(c[1], p)], low |-> [p \in 1..Len(c[1]) |-> Low(c[1], p)]]
           ELSE [at |-> c, sum |-> [b \in 1..Len(c) |-> Sum(c[b])]]

Init == /\ cap \in Caps
        /\ cell = [b \in 1..Len(cap) |-> Empty(cap[b])]
        /\ turn = [b \in 1..Len(cap) |-> 0]
        /\ first = cap /\ path = <<>> /\ seen = <<>>

Step == /\ Kind \in {"ring", "heap"}
        /\ LET c == cell[1] IN cell' = <<  <<c[Len(c)]>> \o SubSeq(c, 1, Len(c) - 1) >>
        /\ turn' = <<(turn[1] + 1) % cap[1]>>
        /\ path' = Append(path, <<"s">>) /\ UNCHANGED cap
Assign(x) == /\ Kind \in {"ring", "heap"}
             /\ cell' = << <<x>> \o Tail(cell[1]) >>
             /\ path' = Append(path, <<"a", x>>) /\ UNCHANGED <<cap, turn>>
Write(k, x) == /\ Kind = "ring" /\ k < cap[1]
               /\ cell' = << [cell[1] EXCEPT ![k + 1] = x] >>
               /\ path' = Append(path, <<"w", k, x>>) /\ UNCHANGED <<cap, turn>>
Resize(c) == /\ Kind = "heap"
             /\ cap' = c /\ cell' = <<Empty(c[1])>> /\ turn' = <<0>>
             /\ path' = Append(path, <<"r", c[1]>>)
(* sum: with and without keeping the sum; a buffer is used in one way only *)
Push(b, x) == /\ Kind \in {"sum", "quiet", "multi"}
              /\ cell' = [cell EXCEPT ![b] = Cut(<<x>> \o @, cap[b])]
              /\ turn' = [turn EXCEPT ![b] = (@ + 1) % cap[b]]
              /\ path' = Append(path, <<"p", b - 1, x>>) /\ UNCHANGED cap

Next == \/ Step
        \/ \E x \in Values : Assign(x)
        \/ \E k \in {1, 2, 5}, x \in Values : Write(k, x)
        \/ \E c \in Caps : Resize(c)
        \/ \E b \in 1..Len(cap), x \in Values : Push(b, x)

(* every transition of the graph of states (contents and place in memory), with a path that ends in it *)
Edges == /\ Next /\ UNCHANGED <<seen, first>>
         /\ Report("edge", [cap |-> first, path |-> path', look |-> <<Look(cell')>>])
Abstract == <<cap, cell, turn>>
(* long runs, by simulation *)
Runs  == /\ Len(path) < Depth /\ Next /\ UNCHANGED first
         /\ (path'[Len(path')][1] = "r" => Len(path) % 64 = 63)
         /\ seen' = Append(seen, IF Len(path') % Long = 0 THEN <<Look(cell')>> ELSE <<>>)
Final == Len(path) = Depth => Report("run", [cap |-> first, path |-> path, look |-> SelectSeq(seen, LAMBDA s : s # <<>>)])

(* ---- what the machine above is for: the list of everything pushed, cut to the capacity *)
Pushed(b) == LET Is(o) == o[1] = "p" /\ o[2] = b - 1 IN [i \in 1..Len(SelectSeq(path, Is)) |-> SelectSeq(path, Is)[i][3]]
CutList == Kind \in {"sum", "quiet", "multi"} =>
             \A b \in 1..Len(cap) : cell[b] = Cut(Reverse(Pushed(b)), cap[b])
(* ring: with the numbers written right after each step, the k-th most recent one; else what the wheel turned back *)
Steps(i) == Cardinality({j \in 1..i : path[j][1] = "s"})
LastResize == LET r == {j \in 1..Len(path) : path[j][1] = "r"} IN IF r = {} THEN 0 ELSE CHOOSE j \in r : \A l \in r : l <= j
Age(j) == Steps(Len(path)) - Steps(j) + (IF path[j][1] = "w" THEN path[j][2] ELSE 0)
Wheel == Kind \in {"ring", "heap"} =>
           \A k \in 0..cap[1]-1 :
              LET w == {j \in LastResize+1..Len(path) : path[j][1] \in {"a", "w"} /\ Age(j) % cap[1] = k}
              IN  cell[1][k + 1] = IF w = {} THEN 0 ELSE LET o == path[CHOOSE j \in w : \A l \in w : l <= j] IN o[Len(o)]
Bounded == \A b \in 1..Len(cap) : Len(cell[b]) <= cap[b]
============================================================================
