-------------------------------- MODULE MCTI --------------------------------
(* TI with small constants: exhaustive check of the API model. *)
EXTENDS TI
MCRoles == [a |-> [valid |-> TRUE, start |-> 0, streams |-> TRUE],
            b |-> [valid |-> TRUE, start |-> 2, streams |-> TRUE],
            c |-> [valid |-> FALSE, start |-> 1, streams |-> TRUE],
            d |-> [valid |-> TRUE, start |-> 1, streams |-> FALSE]]
MCInit == Init /\ roles = MCRoles
MCSpec == MCInit /\ [][Next]_vars
=============================================================================
