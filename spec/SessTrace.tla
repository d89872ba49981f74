----------------------------- MODULE SessTrace -----------------------------
(* Recorded sessions are behaviours of TI.                                   *)
(*                                                                           *)
(* Each recorded call takes the action of TI it claims to be; what it        *)
(* returned must be what that action returns, and its outputs must be, to    *)
(* the bit, those of the same call on a stream that had the library to       *)
(* itself.                                                                   *)
EXTENDS TI, Indicators, TraceIO

Blocks == LoadBlocks(TracePath)

VARIABLES blk, k, held, bad
svars == <<blk, k, held, bad>>

B == Blocks[blk]
E == B.ev[k]
Opt(x) == x

RolesOf(b) == [r \in 0..(Len(b.roles) - 1) |->
  LET d == b.roles[r + 1] IN
  [valid |-> Valid(d.ind, d.o), start |-> IF Valid(d.ind, d.o) THEN Start(d.ind, d.o) ELSE 0, streams |-> TRUE]]

SInit == /\ blk \in 1..Len(Blocks)
         /\ k = 2                                   \* the first event marks the beginning
         /\ held = [s \in Slots |-> 0]
         /\ bad = <<>>
         /\ Init /\ roles = RolesOf(B)

Act(e) ==
  CASE e.op = "new" -> New(e.a, e.b, e.failed /\ e.ret = OUT_OF_MEMORY)
    [] e.op = "run" -> Run(e.a, e.b, FALSE)
    [] e.op = "grun" -> Run(e.a, e.b, TRUE)
    [] e.op = "info" -> Info(e.a)
    [] e.op = "free" -> Free(e.a, FALSE)
    [] e.op = "gfree" -> Free(e.a, TRUE)
    [] e.op = "batch" -> Batch(e.a, e.b, e.failed /\ e.ret = OUT_OF_MEMORY, FALSE)
    [] e.op = "ref" -> Batch(e.a, e.b, e.failed /\ e.ret = OUT_OF_MEMORY, TRUE)
    [] OTHER -> FALSE

Refused(e) == e.failed /\ e.ret = OUT_OF_MEMORY /\ e.op \in {"run", "grun"}    \* a run that found no memory did nothing

Same(p, q) == /\ Len(p) = Len(q)
              /\ \A j \in 1..Len(p) : Len(p[j]) = Len(q[j]) /\ \A i \in 1..Len(p[j]) : SameBits(p[j][i], q[j][i])

(* What was observed, against what the action says *)
Obs(e, l) ==
  LET r == IF e.op \in {"batch", "ref"} THEN e.a ELSE IF e.op = "new" THEN e.b ELSE stream[e.a].role
      Check(p, kind) == IF p THEN <<>> ELSE <<[event |-> k, kind |-> kind, op |-> e.op, ind |-> B.roles[r + 1].ind]>>
      streaming == e.op \in {"run", "grun"}
  IN  Check(e.exc = 0, "exception") \o Check(e.ret = l.ret, "ret") \o Check(~e.hole, "hole") \o Check(~e.touch, "touch") \o
      Check(~e.ghost, "ghost") \o Check(e.info, "info") \o
      (IF e.ret # OKAY THEN Check(e.net = 0, "leak")
       ELSE CASE e.op \in {"batch", "ref"} -> Check(e.net = 0, "leak")
              [] e.op \in {"free", "gfree"} -> Check(held[e.a] + e.net = 0, "leak")
              [] OTHER -> <<>>) \o
      (IF e.ret = OKAY /\ e.op \in {"batch", "ref", "run", "grun"}
       THEN Check(\A j \in 1..Len(e.cnt) : e.cnt[j] = l.n, "count") \o Check(Same(e.out, e.solo), "impure") ELSE <<>>) \o
      (IF e.ret = OKAY /\ (streaming \/ e.op \in {"new", "info"})
       THEN Check(e.prog = (IF e.op = "new" THEN 0 - roles[r].start
                            ELSE IF streaming THEN Progress(e.a) + e.b ELSE Progress(e.a)), "progress") ELSE <<>>)

Step1 ==
  /\ k <= Len(B.ev)
  /\ blk' = blk
  /\ IF E.op = "fault"
     THEN /\ bad' = Append(bad, [event |-> k, kind |-> "fault", op |-> IF k > 2 THEN B.ev[k-1].op ELSE "begin"])
          /\ k' = Len(B.ev) + 1
          /\ UNCHANGED <<vars, held>>
     ELSE IF E.ret = -8 \/ Refused(E)
     THEN /\ bad' = bad \o (IF E.ret = -8 THEN <<>> ELSE IF E.prog = Progress(E.a) /\ E.exc = 0 THEN <<>> ELSE <<[event |-> k, kind |-> "progress", op |-> E.op]>>)
          /\ k' = k + 1
          /\ held' = IF E.ret = -8 THEN held ELSE [held EXCEPT ![E.a] = @ + E.net]
          /\ UNCHANGED vars
     ELSE /\ Act(E)
          /\ LET o == Obs(E, last') IN
             /\ bad' = bad \o o
             (* a call that did not do what the model says leaves nothing to compare the rest with *)
             /\ k' = IF \E i \in 1..Len(o) : o[i].kind \in {"ret", "exception"} THEN Len(B.ev) + 1 ELSE k + 1
          /\ held' = CASE E.op = "new" /\ E.ret = OKAY -> [held EXCEPT ![E.a] = E.net]
                       [] E.op \in {"run", "grun"} -> [held EXCEPT ![E.a] = @ + E.net]
                       [] OTHER -> held

SNext == Step1
SDone == k > Len(B.ev)
SView == <<blk, k>>
SVerdict == SDone => Report("block", [id |-> B.id, bars |-> Len(B.ev), bad |-> bad])
(* The invariants of TI hold along every recorded session, of course. *)
SInv == StreamIsBatch /\ Causal /\ Balanced
=============================================================================
