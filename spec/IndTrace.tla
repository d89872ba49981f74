------------------------------ MODULE IndTrace ------------------------------
(* Checks recorded executions against the indicator definitions.             *)
(*                                                                           *)
(* A block is one indicator, one option vector, one series, and what the     *)
(* real code reported for several calls on (prefixes of) that series:        *)
(* batch, reference, and streams fed in chunks.  The behaviour of a block    *)
(* steps the indicator's transition system through the series; each bar's    *)
(* outputs are compared with what every call reported for that bar.          *)
EXTENDS Indicators, TraceIO

Blocks == LoadBlocks(TracePath)
NB == Len(Blocks)

VARIABLES blk,   \* which block
          t,     \* bars consumed
          st,    \* the indicator's state
          scale, \* largest input
          bad    \* deviations found so far: sequence of records
vars == <<blk, t, st, scale, bad>>

B == Blocks[blk]
Ok(e) == e.ret = 0
Max2(a, b) == IF a < b THEN b ELSE a

(***************************************************************************)
(* Whole-call obligations: return code, number of outputs, memory.         *)
(***************************************************************************)
Dev(k, kind, what) == [event |-> k, kind |-> kind, op |-> what]

(* chunks: <<bars, return code, progress afterwards, values written per output, bars fed before>> *)
ProgressOk(c, p) == \A i \in 1..Len(c) : c[i][2] = 0 /\ c[i][3] = p + c[i][5] + c[i][1]

(* each run writes the outputs of the bars it consumed, beyond the warm-up *)
ChunksOk(c, p) == \A i \in 1..Len(c) :
  LET q == p + c[i][5]
  IN  \A j \in 1..Len(c[i][4]) : c[i][4][j] = Max2(q + c[i][1], 0) - Max2(q, 0)

EventDevs(b, k) ==
  LET e == b.ev[k]
      v == Valid(b.ind, b.o)
      Check(p, kind) == IF p THEN <<>> ELSE <<Dev(k, kind, e.op)>>
  IN
  CASE e.op \in {"fault", "absent"} -> LET what == IF k > 2 THEN b.ev[k-1].op ELSE "begin"
                                       IN  <<Dev(k, e.op, what)>> \o (IF v \/ e.op = "absent" THEN <<>> ELSE <<Dev(k, "refused-fault", what)>>)   \* options that should have been refused
    [] e.op = "start" ->
         (IF v THEN Check(e.start = Start(b.ind, b.o), "start") ELSE <<>>) \o Check(~e.touch, "touch")
    [] e.op \in {"batch", "ref"} ->
         Check(e.exc = 0, "exception") \o
         Check(e.ret = (IF v THEN 0 ELSE 1), "ret") \o
         Check(\A j \in 1..Len(e.cnt) : e.cnt[j] = (IF v /\ Ok(e) THEN Max2(0, e.n - Start(b.ind, b.o)) ELSE 0), IF v THEN "count" ELSE "refused-wrote") \o
         Check(~e.hole, "hole") \o Check(~e.touch, "touch") \o Check(e.net = 0, "leak")
    [] e.op = "far" ->    \* a long history that ends in the bars of the block
         Check(e.exc = 0, "exception") \o
         Check(e.ret = (IF v THEN 0 ELSE 1), "ret") \o
         (IF v /\ Ok(e) THEN Check(\A j \in 1..Len(e.cnt) : e.cnt[j] = Max2(0, e.n - Start(b.ind, b.o)), "count") ELSE <<>>) \o
         (IF v /\ Ok(e) /\ e.what = "stream" THEN Check(e.prog0 = 0 - Start(b.ind, b.o), "progress") \o
                                                   Check(ProgressOk(e.chunks, e.prog0), "progress") \o
                                                   Check(ChunksOk(e.chunks, 0 - Start(b.ind, b.o)), "count") ELSE <<>>) \o
         Check(~e.hole, "hole") \o Check(~e.touch, "touch") \o Check(e.net = 0, "leak")
    [] e.op = "oom" ->    \* a failed allocation: reported as such, or not needed
         Check(e.exc = 0, "exception") \o Check(e.ret \in {0, 2}, "ret") \o Check(e.net = 0, "leak") \o Check(e.same, "after")
    [] e.op = "tail" -> Check(e.exc = 0, "exception") \o Check(e.ret = (IF v THEN 0 ELSE 1), "ret")
    [] e.op = "stream" ->
         Check(e.exc = 0, "exception") \o
         Check(e.ret = (IF v THEN 0 ELSE 1), "ret") \o
         Check(~e.ghost, "ghost") \o
         (IF v /\ Ok(e) THEN Check(e.prog0 = 0 - Start(b.ind, b.o), "progress") \o
                             Check(ProgressOk(e.chunks, e.prog0), "progress") \o
                             Check(ChunksOk(e.chunks, 0 - Start(b.ind, b.o)), "count") ELSE <<>>) \o
         Check(e.self, "info") \o
         Check(~e.hole, "hole") \o Check(~e.touch, "touch") \o Check(e.net = 0, "leak")
    [] OTHER -> <<>>

RECURSIVE AllEventDevs(_, _)
AllEventDevs(b, k) == IF k > Len(b.ev) THEN <<>> ELSE EventDevs(b, k) \o AllEventDevs(b, k + 1)

(***************************************************************************)
(* Values.                                                                 *)
(***************************************************************************)
ScaleOf(b) == MaxSeq([j \in 1..Len(b.in) |-> IF Len(b.in[j]) = 0 THEN 0 ELSE MaxSeq([i \in 1..Len(b.in[j]) |-> Abs(b.in[j][i])])])

Differs(e, y, i, sc) ==   \* the i-th value of some output differs
  \E j \in 1..Len(y) : i <= Len(e.out[j]) /\ ~Agrees(y[j], e.out[j][i], sc)

FarScale == 10000     \* rounding accumulated on the way: a running weighted sum integrates the error of the running sum
ValueDevs(b, y, n, seen, sc) ==
  LET start == Start(b.ind, b.o)
      i == n - start
      Covers(k) == /\ (b.ev[k].op \in {"batch", "ref", "stream"} \/ (b.ev[k].op = "far" /\ b.ind \in FiniteMemory))
                   /\ Ok(b.ev[k])
                   /\ Len(b.ev[k].out) > 0
                   /\ i <= Len(b.ev[k].out[1])
                   /\ ~(\E d \in 1..Len(seen) : seen[d].event = k /\ seen[d].kind = "value")
      ks == SelectSeq([k \in 1..Len(b.ev) |-> k], LAMBDA k : Covers(k) /\ Differs(b.ev[k], y, i, IF b.ev[k].op = "far" THEN sc ** FarScale ELSE sc))
  IN  [m \in 1..Len(ks) |-> [event |-> ks[m], kind |-> "value", op |-> b.ev[ks[m]].op, bar |-> n,
                             want |-> y, got |-> [j \in 1..Len(y) |-> IF i <= Len(b.ev[ks[m]].out[j]) THEN b.ev[ks[m]].out[j][i] ELSE Unk]]]

(***************************************************************************)
(* Calls against each other.  The base of a block is its longest batch; a  *)
(* stream, the reference, and batches on prefixes or on series that differ *)
(* only later must report the same values, each within its own tolerance.  *)
(***************************************************************************)
RECURSIVE BaseFrom(_, _, _)
BaseFrom(b, k, best) ==
  IF k > Len(b.ev) THEN best
  ELSE BaseFrom(b, k + 1, IF b.ev[k].op = "batch" /\ Ok(b.ev[k]) /\ (best = 0 \/ b.ev[k].n > b.ev[best].n) THEN k ELSE best)
Base(b) == BaseFrom(b, 2, 0)

PairDevs(b, y, n, seen, sc, base) ==
  LET i == n - Start(b.ind, b.o)
      e0 == b.ev[base]
      Covers(k) == /\ k # base
                   /\ (b.ev[k].op \in {"batch", "ref", "stream", "tail"} \/ (b.ev[k].op = "far" /\ b.ind \in FiniteMemory))
                   /\ Ok(b.ev[k])
                   /\ Len(b.ev[k].out) > 0
                   /\ i <= Len(b.ev[k].out[1])
                   /\ (b.ev[k].op = "tail" => n <= b.ev[k].n)
                   /\ ~(\E d \in 1..Len(seen) : seen[d].event = k /\ seen[d].kind = "pair")
      Apart(k) == \E j \in 1..Len(y) : /\ i <= Len(e0.out[j])
                                       /\ i <= Len(b.ev[k].out[j])
                                       /\ ~Pair(y[j], e0.out[j][i], b.ev[k].out[j][i], IF b.ev[k].op = "far" THEN sc ** FarScale ELSE sc)
      ks == IF base = 0 THEN <<>> ELSE IF i > Len(e0.out[1]) THEN <<>>
            ELSE SelectSeq([k \in 1..Len(b.ev) |-> k], LAMBDA k : Covers(k) /\ Apart(k))
  IN  [m \in 1..Len(ks) |-> [event |-> ks[m], kind |-> "pair", op |-> b.ev[ks[m]].op, bar |-> n,
                             want |-> [j \in 1..Len(y) |-> e0.out[j][i]],
                             got |-> [j \in 1..Len(y) |-> IF i <= Len(b.ev[ks[m]].out[j]) THEN b.ev[ks[m]].out[j][i] ELSE Unk]]]

Stepping == ~Shallow /\ Valid(B.ind, B.o)

Init == /\ blk \in 1..NB
        /\ t = 0
        /\ st = IF Stepping THEN InitState(B.ind, B.o) ELSE <<>>
        /\ scale = IF Shallow THEN 0 ELSE OutScale(B.ind, ScaleOf(B))
        /\ bad = AllEventDevs(B, 1)

Bar == /\ t < B.bars
       /\ Stepping
       /\ t' = t + 1
       /\ LET r == Step(B.ind, B.o, st, B.in, t + 1)
          IN  /\ st' = r.s
              /\ bad' = IF t + 1 > Start(B.ind, B.o) /\ Len(r.y) > 0
                        THEN bad \o ValueDevs(B, r.y, t + 1, bad, scale ** Slack(B.ind, t + 1)) \o PairDevs(B, r.y, t + 1, bad, scale ** Slack(B.ind, t + 1), Base(B)) ELSE bad
       /\ UNCHANGED <<blk, scale>>

Finished == t = B.bars \/ ~Stepping
Next == Bar
Spec == Init /\ [][Next]_vars

View == <<blk, t>>

(* Always true; writes the verdict on each block. *)
Verdict == Finished => Report("block", [id |-> B.id, bars |-> t, bad |-> bad])
=============================================================================
