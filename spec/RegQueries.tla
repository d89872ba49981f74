----------------------------- MODULE RegQueries -----------------------------
EXTENDS Registry
Names == LoadBlocks(TracePath)[1]
VARIABLE q
Init == q \in Queries(Names) /\ Report("query", q)
Next == UNCHANGED q
=============================================================================
