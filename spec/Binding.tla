------------------------------ MODULE Binding ------------------------------
(* Calling an indicator from Python, ti.name(..arguments.., pad=True or False).*)
(* An indicator has ni inputs and no options, in this order; a call gives the *)
(* first p of them by position and the set kw of them by keyword, and perhaps *)
(* keywords that are no names of it.  The specification says whether the call *)
(* is refused and if not, which argument goes where and how long the results  *)
(* are.                                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, TraceIO
CONSTANTS MaxIn, MaxOpt
VARIABLES call, at

Sig == {[ni |-> i, no |-> o] : i \in 1..MaxIn, o \in 0..MaxOpt}
N(s) == s.ni + s.no

(* sizes relative to the warm-up: short of it, just it, one output, many *)
Sizes == {"empty", "one", "short", "warm", "first", "many"}
Default == [kw |-> {}, unknown |-> 0, uneven |-> 0, delta |-> 0, size |-> "many", pad |-> TRUE, options |-> "accepted", kind |-> "list"]

(* calls with all arguments, by position up to p and by keyword from there, and one deviation at a time *)
Full(s, p) == [s |-> s, p |-> p] @@ [Default EXCEPT !.kw = (p + 1)..N(s)]
Calls(s) ==
  UNION {
    LET c == Full(s, p) IN
      {c}
      \cup {[c EXCEPT !.kw = c.kw \ {k}] : k \in c.kw}                      \* one is missing
      \cup {[c EXCEPT !.kw = c.kw \cup {k}] : k \in 1..p}                   \* one is given twice
      \cup {[c EXCEPT !.unknown = 1]}
      \cup {[c EXCEPT !.size = z, !.pad = b] : z \in Sizes, b \in {TRUE, FALSE}}
      \cup {[c EXCEPT !.uneven = j, !.delta = d] : j \in (IF s.ni > 1 THEN 1..s.ni ELSE {}), d \in {0-1, 1}}
      \cup (IF s.no > 0 THEN {[c EXCEPT !.options = "refused", !.size = z] : z \in Sizes} ELSE {})
      \cup {[c EXCEPT !.kind = k] : k \in {"list", "tuple", "float64", "float32", "int", "pandas", "strided"}}
    : p \in 0..N(s)}
  \cup {[Full(s, N(s)) EXCEPT !.p = N(s) + 1]}                             \* one too many

Given(c)    == (1..c.p) \cup c.kw
Complete(c) == Given(c) = 1..N(c.s)
Twice(c)    == (1..c.p) \cap c.kw # {}
Uneven(c)   == c.uneven > 0
Verdict(c)  == CASE ~ Complete(c) \/ Twice(c) \/ c.unknown > 0 \/ c.p > N(c.s) -> "refused"
                 [] Uneven(c) -> "refused"
                 [] c.options = "refused" -> "invalid"
                 [] OTHER -> "result"
(* of n bars with a warm-up of w *)
Max0(x) == IF x < 0 THEN 0 ELSE x
Values(n, w) == Max0(n - w)
Length(c, n, w) == IF c.pad THEN n ELSE Values(n, w)
(* argument k of the call is input k or option k - ni of the library's function *)
Goes(c, k) == IF k <= c.s.ni THEN <<"input", k - 1>> ELSE <<"option", k - c.s.ni - 1>>

Init == at = 0 /\ \E s \in Sig : call \in Calls(s)
Next == UNCHANGED <<call, at>>
Emit == Report("call", [ni |-> call.s.ni, no |-> call.s.no, p |-> call.p, kw |-> [k \in 1..N(call.s) |-> k \in call.kw], unknown |-> call.unknown, uneven |-> call.uneven, delta |-> call.delta,
                        size |-> call.size, pad |-> call.pad, options |-> call.options, kind |-> call.kind, verdict |-> Verdict(call),
                        goes |-> [k \in 1..N(call.s) |-> Goes(call, k)]])

(* what is wanted of the specification itself *)
Placed   == Verdict(call) = "result" => \A k, l \in 1..N(call.s) : k # l => Goes(call, k) # Goes(call, l)
Padded   == \A n \in 0..6, w \in 0..6 : Values(n, w) <= n /\ Length(call, n, w) \in {n, Values(n, w)}
OneFault == Verdict(call) = "result" => Complete(call) /\ ~ Twice(call)

(* ---- names: blanks become underscores, percent signs go *)
Mangle(codes) == LET t == SelectSeq(codes, LAMBDA x : x # 37) IN [i \in 1..Len(t) |-> IF t[i] = 32 THEN 95 ELSE t[i]]
Names == LoadBlocks(TracePath)
NInit == at = 1 /\ call = 0
NNext == at <= Len(Names) /\ at' = at + 1 /\ UNCHANGED call
NEmit == at <= Len(Names) => Report("names", [i \in 1..Len(Names[at]) |-> [j \in 1..Len(Names[at][i]) |-> Mangle(Names[at][i][j])]])
=============================================================================
