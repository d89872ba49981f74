------------------------------ MODULE TraceIO ------------------------------
(* Recorded executions in, verdicts out (java/tind/TraceOps.java). *)
LoadBlocks(path) == CHOOSE s : s = <<"the recorded blocks in file", path>>
TracePath == CHOOSE s : s = "system property tind.trace"
Shallow == FALSE                 \* system property tind.shallow: whole calls only, no values
Report(kind, value) == TRUE      \* appends to the file named by system property tind.report
=============================================================================
