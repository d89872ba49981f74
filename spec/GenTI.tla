-------------------------------- MODULE GenTI --------------------------------
(* Behaviours of TI, written out for replay into the real library.  Sizes and *)
(* roles are symbolic: the harness puts indicators and bar counts in their    *)
(* place.  GenSpec is explored by simulation (sessions), ChunkSpec            *)
(* exhaustively (all ways to cut a series into chunks).                       *)
EXTENDS TI, TLC, TraceIO
CONSTANT Depth
VARIABLE hist

GRoles == [a |-> [valid |-> TRUE, start |-> 0, streams |-> TRUE],
           b |-> [valid |-> TRUE, start |-> 2, streams |-> TRUE],
           c |-> [valid |-> TRUE, start |-> 4, streams |-> TRUE],
           x |-> [valid |-> FALSE, start |-> 0, streams |-> TRUE]]
GInit == Init /\ roles = GRoles /\ hist = <<>>
Quota == Cardinality({s \in Slots : Live(s)})
(* Creating and freeing are made rarer than running, so that sessions get somewhere. *)
GNext == /\ Len(hist) < Depth
         /\ Next
         /\ (last'.op \in {"free", "gfree"} => Len(hist) % 3 = 2)
         /\ (last'.op = "new" => Quota = 0 \/ Len(hist) % 2 = 0)
         /\ (last'.op = "batch" => Len(hist) % 4 = 1) /\ (last'.op = "ref" => Len(hist) % 4 = 3)
         /\ hist' = Append(hist, <<last'.op, last'.args, last'.ret>>)
GenSpec == GInit /\ [][GNext]_<<vars, hist>>
GReport == Len(hist) = Depth => Report("session", hist)

(* All chunkings of Bars bars with at most one empty chunk *)
CRoles == [a |-> [valid |-> TRUE, start |-> 3, streams |-> TRUE]]
Zeros == Cardinality({i \in 1..Len(hist) : hist[i] = 0})
CInit == /\ roles = CRoles /\ hist = <<>>
         /\ stream = [s \in Slots |-> [role |-> "a", fed |-> 0, out |-> <<>>]]
         /\ mem = Slots /\ last = Call("new", <<1, "a">>, OKAY, 0 - 3)
CNext == \E n \in Sizes : /\ Run(1, n, FALSE)
                          /\ (n = 0 => Zeros = 0)
                          /\ hist' = Append(hist, n)
CReport == stream[1].fed = Bars => Report("chunks", hist)
CInv == StreamIsBatch /\ Causal /\ Balanced
==============================================================================
