------------------------------- MODULE Search -------------------------------
(* Binary search over a sorted table, as ti_find_indicator does it, refines   *)
(* lookup by name.  Names are abstracted to their rank: even numbers are in   *)
(* the table, odd numbers fall between them.                                  *)
EXTENDS Integers
CONSTANT Max
VARIABLES size, query, lo, hi, res
vars == <<size, query, lo, hi, res>>
Nothing == 0 - 1
Running == 0 - 2
At(i) == 2 * i
Init == /\ size \in 0..Max /\ query \in (0-1)..2*Max+1
        /\ lo = 0 /\ hi = size - 1 /\ res = Running
Next == /\ res = Running
        /\ IF hi < lo THEN res' = Nothing /\ UNCHANGED <<lo, hi>>
           ELSE LET i == lo + (hi - lo) \div 2 IN
                IF query = At(i) THEN res' = i /\ UNCHANGED <<lo, hi>>
                ELSE IF query > At(i) THEN lo' = i + 1 /\ UNCHANGED <<hi, res>>
                ELSE hi' = i - 1 /\ UNCHANGED <<lo, res>>
        /\ UNCHANGED <<size, query>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InTable == query % 2 = 0 /\ query \div 2 < size /\ query >= 0
Right == res # Running => res = IF InTable THEN query \div 2 ELSE Nothing
InRange == res = Running => lo >= 0 /\ hi < size /\ (InTable => lo <= query \div 2 /\ query \div 2 <= hi)
Ends == <>(res # Running)
=============================================================================
