------------------------------- MODULE MCChoice -------------------------------
(***************************************************************************)
(* Class building explored on small AIGs: as long as a node joins a class  *)
(* only if no member lies in its fan-in (through fanins and links), fanins *)
(* and links together stay acyclic and every class is a simple list headed *)
(* by its representative - so implementations can always be chosen bottom  *)
(* up.  Every transition is emitted.                                       *)
(***************************************************************************)
EXTENDS Choice, Json
CONSTANTS NPi, MaxGate
VARIABLES net, eq, rep, built, path
vars == <<net, eq, rep, built, path>>
Lits == 0..(2 * AN!Size(net) - 1)
Start == IF NPi = 2 THEN AN!MkPi(AN!MkPi(AN!Empty)[1])[1] ELSE AN!MkPi(AN!MkPi(AN!MkPi(AN!Empty)[1])[1])[1]
Init == net = Start /\ eq = <<>> /\ rep = <<>> /\ built = FALSE /\ path = <<>>
AddAnd == /\ ~built /\ Cardinality(AN!Gates(net)) < MaxGate
       /\ \E a \in Lits, b \in Lits : a < b /\ LET r == AN!MkAnd(net, a, b) IN r[1] # net /\ net' = r[1] /\ path' = Append(path, <<"and", a, b>>)
       /\ UNCHANGED <<eq, rep, built>>
Done == /\ ~built /\ AN!Gates(net) # {} /\ built' = TRUE /\ path' = Append(path, <<"cinit">>)
        /\ eq' = [i \in 1..AN!Size(net) |-> -1] /\ rep' = [i \in 1..AN!Size(net) |-> i - 1] /\ UNCHANGED net
Join == /\ built
        /\ \E n, r \in AN!Gates(net) :
               /\ ChoiceLegal(net, eq, rep, n, r)
               /\ path' = Append(path, <<"setc", n, r>>)
               /\ IF ChoiceOk(net, eq, n, r) THEN eq' = WithChoice(eq, n, r) /\ rep' = [rep EXCEPT ![n + 1] = r] ELSE UNCHANGED <<eq, rep>>
        /\ UNCHANGED <<net, built>>
Next == AddAnd \/ Done \/ Join
Spec == Init /\ [][Next]_vars
NoPath == <<net, eq, rep, built>>
Sound == built =>
    /\ Acyclic(net, eq)
    /\ \A n \in AN!Gates(net) : rep[n + 1] = n => LET c == ClassFrom(eq, n, {}) IN {c[i] : i \in 1..Len(c)} = {m \in AN!Gates(net) : rep[m + 1] = n}
Emit == [][PrintT(<<"PATH", ToJson(path')>>)]_vars
==============================================================================
