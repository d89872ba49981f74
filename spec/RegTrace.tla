------------------------------ MODULE RegTrace ------------------------------
(* Recorded: the declarations (index), the table in memory, lookups, counts.  *)
EXTENDS Registry, TLC
Rec == LoadBlocks(TracePath)
D == Rec[1]   \* declared
T == Rec[2].entries
M == Rec[2]
L == Rec[3]   \* <<query, position>>
Names == TLCEval([i \in 1..Len(T) |-> T[i].name])
VARIABLE n
Bad(kind, what) == Report("bad", [kind |-> kind, what |-> what])
Ok(cond, kind, what) == IF cond THEN TRUE ELSE Bad(kind, what)
DeclaredNames == {D[i].name : i \in 1..Len(D)}
Declared(nm) == D[CHOOSE i \in 1..Len(D) : D[i].name = nm]

Table == /\ Ok(Sorted(Names), "order", {i \in 1..Len(Names) - 1 : ~ Before(Names[i], Names[i + 1])})
         /\ \A x \in DeclaredNames : Ok(\E i \in 1..Len(Names) : Names[i] = x, "missing", Declared(x).id)
         /\ Ok(Len(T) = Len(D), "entries", Len(T))
         /\ Ok(M.terminated, "terminator", 0)
         /\ Ok(M.count = Len(D) /\ M.macro = Len(D), "count", <<M.count, M.macro>>)
         /\ Ok(M.version = M.wantversion, "version", M.version)
         /\ Ok(M.build = M.buildmacro, "build", 0)
         /\ \A i \in 1..Len(T) :
              /\ Ok(T[i].constant = i - 1, "constant", T[i].id)
              /\ IF T[i].name \in DeclaredNames
                 THEN LET e == Entry(Declared(T[i].name)) IN
                      \A f \in DOMAIN e : Ok(e[f] = T[i][f], "field", <<T[i].id, f, T[i][f], e[f]>>)
                 ELSE Bad("undeclared", T[i].id)
(* the indicators this specification describes are described by the table as here *)
Known == \A c \in Cat :
            LET m == {i \in 1..Len(T) : T[i].id = "ti_" \o c.id} IN
            IF m = {} THEN Bad("gone", c.id)
            ELSE LET e == T[CHOOSE i \in m : TRUE] IN
                 \A f \in {"type", "inputs", "options", "outputs"} : Ok(e[f] = c[f], "described", <<c.id, f, e[f], c[f]>>)
Lookup(i) == Ok(Find(Names, L[i][1]) = L[i][2], "lookup", <<L[i][1], L[i][2]>>)

Chunk == 250
Init == n = 0 \/ n \in {i \in 1..Len(L) : i % Chunk = 1}
Next == \/ n = 0 /\ Table /\ Known /\ UNCHANGED n
        \/ n > 0 /\ Lookup(n) /\ n < Len(L) /\ n % Chunk # 0 /\ n' = n + 1
Spec == Init /\ [][Next]_n
=============================================================================
