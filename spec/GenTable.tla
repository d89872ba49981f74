------------------------------ MODULE GenTable ------------------------------
(* The tables generated from many indices, each against its index (Registry). *)
EXTENDS Registry, TLC
Recs == LoadBlocks(TracePath)      \* [decl, table, lookups, functions, declared]
VARIABLE n
Bad(kind, what) == Report("bad", [at |-> n, kind |-> kind, what |-> what])
Ok(cond, kind, what) == IF cond THEN TRUE ELSE Bad(kind, what)
Check(r) ==
  LET D == r.decl
      M == r.table
      T == M.entries
      Names == [i \in 1..Len(T) |-> T[i].name]
      known == {D[i].name : i \in 1..Len(D)}
  IN  /\ Ok(Sorted(Names), "order", Len(T))
      /\ \A i \in 1..Len(D) : Ok(\E j \in 1..Len(T) : Names[j] = D[i].name, "missing", D[i].id)
      /\ Ok(Len(T) = Len(D), "entries", Len(T))
      /\ Ok(M.terminated, "terminator", 0)
      /\ Ok(M.count = Len(D) /\ M.macro = Len(D), "count", <<M.count, M.macro>>)
      /\ \A i \in 1..Len(T) :
           /\ Ok(T[i].constant = i - 1, "constant", T[i].id)
           /\ IF T[i].name \in known
              THEN LET e == Entry(D[CHOOSE k \in 1..Len(D) : D[k].name = T[i].name]) IN
                   \A f \in DOMAIN e : Ok(e[f] = T[i][f], "field", <<T[i].id, f, T[i][f], e[f]>>)
              ELSE Bad("undeclared", T[i].id)
      /\ \A i \in 1..Len(r.lookups) : Ok(Find(Names, r.lookups[i][1]) = r.lookups[i][2], "lookup", r.lookups[i][2])
      /\ Ok({r.functions[i] : i \in 1..Len(r.functions)} = {r.declared[i] : i \in 1..Len(r.declared)}, "declared", r.declared)
Init == n \in 1..Len(Recs)
Next == Check(Recs[n]) /\ UNCHANGED n
=============================================================================
