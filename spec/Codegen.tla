------------------------------ MODULE Codegen ------------------------------
(* codegen.py: from the index (a sequence of declarations) and the            *)
(* implementation files to header, table and scaffolds.  The text of a file   *)
(* is a sequence of pieces: what somebody wrote ("own"), and what the          *)
(* generator adds: "includes", "base", "ref", "stream".  own pieces carry the  *)
(* entry points they define.                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, TraceIO
CONSTANTS Names, MaxEntries
VARIABLES index,   \* declarations, in the order of the file
          files,   \* name -> [ext, own, add]
          old,     \* the option --old
          runs
vars == <<index, files, old, runs>>

Fulls    == {"Plain Name", "Name (with 100 %), two-thirds 2/3 & more", "Q'Stick"}
Types    == {"overlay", "indicator", "math", "simple", "comparative"}
Inputs   == {<<"series">>, <<"high", "low">>, <<"close", "volume">>, <<"open", "high", "low", "close">>}
Options  == {<<>>, <<"period">>, <<"fast period", "slow period">>, <<"p%", "k", "threshold">>}
Outputs  == {<<"o1">>, <<"lower", "middle", "upper">>, <<"up", "dn">>}
Features == {<<>>, <<"ref">>, <<"stream">>, <<"ref", "stream">>, <<"stream", "ref">>}
Points   == {"ref", "stream"}
Set(s)   == {s[i] : i \in 1..Len(s)}

Decl(n, f) == [name |-> n, features |-> f, full |-> RandomElement(Fulls), type |-> RandomElement(Types), inputs |-> RandomElement(Inputs),
               options |-> RandomElement(Options), outputs |-> RandomElement(Outputs)]
NoFile == [ext |-> "none", own |-> {}, add |-> <<>>]
File == {NoFile} \cup [ext : {"c", "cc"}, own : SUBSET Points, add : {<<>>}]

Defined(f) == f.own \cup (Set(f.add) \cap Points)
Missing(d, f) == SelectSeq(<<"ref", "stream">>, LAMBDA p : p \in Set(d.features) /\ p \notin Defined(f))
Generated(d, f) ==
  IF f.ext = "none" THEN [ext |-> IF old THEN "c" ELSE "cc", own |-> {}, add |-> <<"includes", "base">> \o Missing(d, f)]
  ELSE IF Missing(d, f) = <<>> THEN f
  ELSE IF f.ext = "c" /\ ~ old THEN [ext |-> "cc", own |-> f.own, add |-> f.add \o <<"includes">> \o Missing(d, f)]
  ELSE [f EXCEPT !.add = @ \o Missing(d, f)]
Of(n) == index[CHOOSE i \in 1..Len(index) : index[i].name = n]
Run(fs) == [n \in DOMAIN fs |-> IF n \in {index[i].name : i \in 1..Len(index)} THEN Generated(Of(n), fs[n]) ELSE fs[n]]

(* header and table: as in Registry; the functions an index declares *)
Functions == UNION {LET d == index[i] n == "ti_" \o d.name IN
                    {n \o "_start", n} \cup (IF "ref" \in Set(d.features) THEN {n \o "_ref"} ELSE {})
                    \cup (IF "stream" \in Set(d.features) THEN {n \o "_stream_new", n \o "_stream_run", n \o "_stream_free"} ELSE {}) : i \in 1..Len(index)}

View(f) == [ext |-> f.ext, own |-> SetToSeq(f.own), add |-> f.add]
Case == [index |-> index, old |-> old, names |-> SetToSeq(DOMAIN files), functions |-> SetToSeq(Functions),
         before |-> [i \in 1..Len(SetToSeq(DOMAIN files)) |-> View(files[SetToSeq(DOMAIN files)[i]])],
         after |-> [i \in 1..Len(SetToSeq(DOMAIN files)) |-> View(Run(files)[SetToSeq(DOMAIN files)[i]])]]

(* ---- behaviours: an index grows, then the generator runs, again and again *)
Init == index = <<>> /\ files = <<>> /\ old \in BOOLEAN /\ runs = 0
Add  == /\ runs = 0 /\ Len(index) < MaxEntries
        /\ \E n \in Names \ {index[i].name : i \in 1..Len(index)}, f \in Features, file \in File :
              /\ index' = Append(index, Decl(n, f))
              /\ files' = files @@ (n :> file)
        /\ UNCHANGED <<old, runs>>
(* a file of somebody else's, of no indicator in the index *)
Foreign == /\ runs = 0 /\ \E n \in Names \ DOMAIN files, file \in File \ {NoFile} : n \notin {index[i].name : i \in 1..Len(index)} /\ files' = files @@ (n :> file)
           /\ UNCHANGED <<index, old, runs>>
Execute == /\ runs < 2 /\ index # <<>>
           /\ IF runs = 0 THEN Report("case", Case) ELSE TRUE
           /\ files' = Run(files) /\ runs' = runs + 1 /\ UNCHANGED <<index, old>>
Next == Add \/ Foreign \/ Execute

Complete   == runs > 0 => \A i \in 1..Len(index) : LET f == files[index[i].name] IN f.ext # "none" /\ Set(index[i].features) \subseteq Defined(f)
Idempotent == runs > 0 => Run(files) = files
Once       == runs > 0 => \A n \in DOMAIN files : \A p \in Points : Cardinality({i \in 1..Len(files[n].add) : files[n].add[i] = p}) <= IF p \in files[n].own THEN 0 ELSE 1
============================================================================
