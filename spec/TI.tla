--------------------------------- MODULE TI ---------------------------------
(* The library as its callers see it: batch calls, and streams that are      *)
(* created, fed, asked about themselves and freed, in any order, while       *)
(* memory may run out at any allocation.                                     *)
(*                                                                           *)
(* Indicators are abstract here: a role is an indicator with options, of     *)
(* which only validity, start and whether it streams matter.  What the       *)
(* outputs are is left to Indicators.tla; this module says which bars have   *)
(* outputs, who delivers them and when.                                      *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Slots,    \* places for streams
          Sizes,    \* numbers of bars fed by one run
          Batches,  \* numbers of bars of a batch
          Bars,     \* bars of a role's series
          Faults    \* whether allocations may fail

OKAY == 0
INVALID_OPTION == 1
OUT_OF_MEMORY == 2
None == [role |-> "none"]

VARIABLES roles,    \* role -> [valid, start, streams]; never changes
          stream,   \* slot -> None, or [role, fed, out]: bars consumed, and the bars whose outputs were delivered
          mem,      \* slots that own memory
          last      \* the last call and what it returned

vars == <<roles, stream, mem, last>>

Live(s) == stream[s] # None
Progress(s) == stream[s].fed - roles[stream[s].role].start
MaxZ(a) == IF a < 0 THEN 0 ELSE a
Call(op, args, ret, n) == [op |-> op, args |-> args, ret |-> ret, n |-> n]

TypeOK == /\ \A s \in Slots : Live(s) => /\ stream[s].role \in DOMAIN roles
                                         /\ stream[s].fed \in 0..Bars
          /\ mem \subseteq Slots

Init == /\ stream = [s \in Slots |-> None]
        /\ mem = {}
        /\ last = Call("init", <<>>, OKAY, 0)

(* Creation: refused for bad options, without taking anything; fails as a whole when memory does. *)
New(s, r, fault) ==
  LET d == roles[r] IN
  /\ ~Live(s) /\ d.streams
  /\ IF ~d.valid
     THEN /\ last' = Call("new", <<s, r>>, INVALID_OPTION, 0)
          /\ UNCHANGED <<stream, mem>>
     ELSE IF fault
     THEN /\ last' = Call("new", <<s, r>>, OUT_OF_MEMORY, 0)
          /\ UNCHANGED <<stream, mem>>
     ELSE /\ stream' = [stream EXCEPT ![s] = [role |-> r, fed |-> 0, out |-> <<>>]]
          /\ mem' = mem \cup {s}
          /\ last' = Call("new", <<s, r>>, OKAY, 0 - d.start)
  /\ UNCHANGED roles

(* One run: consumes n bars and delivers the outputs of those of them that lie beyond the warm-up. *)
Run(s, n, generic) ==
  /\ Live(s) /\ stream[s].fed + n <= Bars
  /\ LET d == roles[stream[s].role]
         f == stream[s].fed
         new == MaxZ(f + n - d.start) - MaxZ(f - d.start)
         first == IF f < d.start THEN d.start + 1 ELSE f + 1        \* the first bar with an output in this run
     IN  /\ stream' = [stream EXCEPT ![s].fed = f + n,
                                     ![s].out = @ \o [i \in 1..new |-> first + i - 1]]
         /\ last' = Call(IF generic THEN "grun" ELSE "run", <<s, n>>, OKAY, new)
  /\ UNCHANGED <<roles, mem>>

Info(s) == /\ Live(s)
           /\ last' = Call("info", <<s, stream[s].role>>, OKAY, Progress(s))
           /\ UNCHANGED <<roles, stream, mem>>

Free(s, generic) ==
  /\ Live(s)
  /\ stream' = [stream EXCEPT ![s] = None]
  /\ mem' = mem \ {s}
  /\ last' = Call(IF generic THEN "gfree" ELSE "free", <<s>>, OKAY, 0)
  /\ UNCHANGED roles

(* A batch call leaves no trace of itself. *)
Batch(r, n, fault, ref) ==
  LET d == roles[r]
      ret == IF ~d.valid THEN INVALID_OPTION ELSE IF fault THEN OUT_OF_MEMORY ELSE OKAY
  IN  /\ last' = Call(IF ref THEN "ref" ELSE "batch", <<r, n>>, ret, IF ret = OKAY THEN MaxZ(n - d.start) ELSE 0)
      /\ UNCHANGED <<roles, stream, mem>>

Next == \/ \E s \in Slots, r \in DOMAIN roles, f \in Faults : New(s, r, f)
        \/ \E s \in Slots, n \in Sizes, g \in BOOLEAN : Run(s, n, g)
        \/ \E s \in Slots : Info(s)
        \/ \E s \in Slots, g \in BOOLEAN : Free(s, g)
        \/ \E r \in DOMAIN roles, n \in Batches, f \in Faults, g \in BOOLEAN : Batch(r, n, f, g)

Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the API guarantees.                                                *)
(***************************************************************************)
(* Streaming delivers what one batch on the bars fed so far would, whatever the chunks. *)
StreamIsBatch == \A s \in Slots : Live(s) =>
  LET d == roles[stream[s].role] IN
  stream[s].out = [i \in 1..MaxZ(stream[s].fed - d.start) |-> d.start + i]
(* No output before its bar. *)
Causal == \A s \in Slots : Live(s) => \A i \in 1..Len(stream[s].out) : stream[s].out[i] <= stream[s].fed
(* Memory is held by live streams and nobody else. *)
Balanced == mem = {s \in Slots : Live(s)}
(* Only accepted options get a stream. *)
OnlyValid == \A s \in Slots : Live(s) => roles[stream[s].role].valid /\ roles[stream[s].role].streams
(* A call touches only the stream it names. *)
Isolation == [][\A s \in Slots : stream'[s] # stream[s] => Len(last'.args) > 0 /\ last'.args[1] = s]_vars
(* Progress never goes back while the stream lives. *)
Monotone == [][\A s \in Slots : Live(s) /\ stream'[s] # None => stream'[s].fed >= stream[s].fed]_vars
=============================================================================
