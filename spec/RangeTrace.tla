----------------------------- MODULE RangeTrace -----------------------------
(* Checks the recorded outputs, and those of the definitions, against the    *)
(* bounds of Ranges.                                                         *)
EXTENDS IndTrace, Ranges

RangeDevs(b, y, n, seen, sc) ==
  LET i == n - Start(b.ind, b.o)
      fs == Facts(b.ind, b.o, b.in, n)
      Covers(k) == /\ b.ev[k].op \in {"batch", "ref", "stream"}
                   /\ Ok(b.ev[k])
                   /\ Len(b.ev[k].out) > 0
                   /\ \A j \in 1..Len(b.ev[k].out) : i <= Len(b.ev[k].out[j])
                   /\ ~(\E d \in 1..Len(seen) : seen[d].event = k /\ seen[d].kind = "range")
      Got(k) == [j \in 1..Len(b.ev[k].out) |-> b.ev[k].out[j][i]]
      ks == IF fs = <<>> THEN <<>> ELSE SelectSeq([k \in 1..Len(b.ev) |-> k], LAMBDA k : Covers(k) /\ BrokenAmong(fs, y, Got(k), sc) # <<>>)
      own == IF fs = <<>> THEN <<>> ELSE BrokenAmong(fs, y, y, sc)
  IN  [m \in 1..Len(ks) |-> [event |-> ks[m], kind |-> "range", op |-> b.ev[ks[m]].op, bar |-> n, fact |-> BrokenAmong(fs, y, Got(ks[m]), sc)[1], want |-> y, got |-> Got(ks[m])]]
      \o (IF own = <<>> \/ (\E d \in 1..Len(seen) : seen[d].kind = "definition") THEN <<>>
          ELSE <<[event |-> 0, kind |-> "definition", op |-> "spec", bar |-> n, fact |-> own[1], want |-> y, got |-> y]>>)

BarR == /\ t < B.bars
        /\ Stepping
        /\ t' = t + 1
        /\ LET r == Step(B.ind, B.o, st, B.in, t + 1)
           IN  /\ st' = r.s
               /\ bad' = IF t + 1 > Start(B.ind, B.o) /\ Len(r.y) > 0 THEN bad \o RangeDevs(B, r.y, t + 1, bad, scale ** Slack(B.ind, t + 1)) ELSE bad
        /\ UNCHANGED <<blk, scale>>
NextR == BarR
=============================================================================
