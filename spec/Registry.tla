------------------------------ MODULE Registry ------------------------------
(* The table of indicators and its lookup by name.  A name is the sequence of *)
(* its character codes.  Lookup is specified on the table alone; that binary  *)
(* search refines it is checked in Search.                                    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TraceIO, Catalogue

Before(a, b) == \* strcmp(a, b) < 0
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      d == {i \in 1..n : a[i] # b[i]}
  IN  IF d = {} THEN Len(a) < Len(b) ELSE LET i == CHOOSE i \in d : \A j \in d : i <= j IN a[i] < b[i]

Sorted(names) == \A i \in 1..Len(names) - 1 : Before(names[i], names[i + 1])
Find(names, q) == LET m == {i \in 1..Len(names) : names[i] = q} IN IF m = {} THEN 0 - 1 ELSE (CHOOSE i \in m : TRUE) - 1

(* Strings that are close to names, without being names by construction *)
Edit(n) == {SubSeq(n, 1, k) : k \in 0..Len(n)} \cup {SubSeq(n, k, Len(n)) : k \in 2..Len(n)}
      \cup {Append(n, c) : c \in {32, 48, 95, 97, 122, 255}}
      \cup {[n EXCEPT ![i] = n[i] + d] : i \in 1..Len(n), d \in {0 - 32, 0 - 1, 1}}
      \cup {SubSeq(n, 1, i) \o SubSeq(n, i + 2, Len(n)) : i \in 0..Len(n) - 1}
      \cup {SubSeq(n, 1, i) \o <<n[i]>> \o SubSeq(n, i + 1, Len(n)) : i \in 1..Len(n)}
      \cup {<<c>> \o n : c \in {32, 97, 116}}
Queries(names) == UNION {Edit(names[i]) : i \in 1..Len(names)} \cup {<<>>, <<1>>, <<255>>, <<122, 122, 122>>}
                  \cup {names[i] \o names[i + 1] : i \in 1..Len(names) - 1}

(* ---- what an entry of the table must be, given the declaration of its indicator *)
Has(d, f) == \E i \in 1..Len(d.features) : d.features[i] = f
Entry(d) == [name |-> d.name, full |-> d.full, type |-> d.type, inputs |-> d.inputs, options |-> d.options, outputs |-> d.outputs,
             start |-> d.id \o "_start", indicator |-> d.id, ref |-> IF Has(d, "ref") THEN d.id \o "_ref" ELSE "0",
             new |-> IF Has(d, "stream") THEN d.id \o "_stream_new" ELSE "0", run |-> IF Has(d, "stream") THEN d.id \o "_stream_run" ELSE "0",
             free |-> IF Has(d, "stream") THEN d.id \o "_stream_free" ELSE "0", nulls |-> TRUE]
=============================================================================
