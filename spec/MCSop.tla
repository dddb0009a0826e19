-------------------------------- MODULE MCSop --------------------------------
(* All small covers, in every order of their products.                     *)
EXTENDS Sop, Json, TLC
CONSTANTS NVar, MaxLen, Prime      \* Prime: 1 = no product contains another
VARIABLE path
vars == <<path>>
NL == 2 * NVar
Cubes == {c \in SUBSET (0..(NL - 1)) : c # {} /\ \A v \in 0..(NVar - 1) : ~({2 * v, 2 * v + 1} \subseteq c)}
Init == path = <<>>
Next == /\ Len(path) < MaxLen
        /\ \E c \in Cubes : /\ \A i \in 1..Len(path) : path[i] # c /\ (Prime = 1 => ~(path[i] \subseteq c) /\ ~(c \subseteq path[i]))
                            /\ path' = Append(path, c)
Spec == Init /\ [][Next]_vars
Kernel == LET D == GoodDivisor(path, NL) IN D # <<>> => Divides(path, D) /\ LET d == Divide(path, D) IN DivisionOk(path, D, d.q, d.r) /\ d.q # <<>>
Factored == path # <<>> => LET f == Factor(path, NL) IN ~Stuck(f) /\ \A a \in Assignments(NVar) : FormAt(f, a) = CoverAt(path, a)
Asc(c) == SetToSortSeq(c, LAMBDA x, y : x < y)
Emit == [][PrintT(<<"PATH", ToJson([i \in 1..Len(path') |-> Asc(path'[i])])>>)]_vars
===============================================================================
