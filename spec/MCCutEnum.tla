------------------------------ MODULE MCCutEnum ------------------------------
(***************************************************************************)
(* Why merging the fanins' cuts is enough: on every small AIG the minimal  *)
(* separators of at most K nodes (the definition, over all subsets) are    *)
(* exactly what bottom-up merging with pruning yields.                     *)
(***************************************************************************)
EXTENDS Cuts, Json
CONSTANTS NPi, MaxGate, K
VARIABLES net, path
vars == <<net, path>>
Lits == 0..(2 * AN!Size(net) - 1)
Init == net = (IF NPi = 2 THEN AN!MkPi(AN!MkPi(AN!Empty)[1])[1] ELSE AN!MkPi(AN!MkPi(AN!MkPi(AN!Empty)[1])[1])[1]) /\ path = <<>>
Next == /\ Cardinality(AN!Gates(net)) < MaxGate
        /\ \E a \in Lits, b \in Lits : a < b /\ LET r == AN!MkAnd(net, a, b) IN r[1] # net /\ net' = r[1] /\ path' = Append(path, <<"and", a, b>>)
Spec == Init /\ [][Next]_vars
NoPath == [i \in 1..AN!Size(net) |-> GI(net)[i]]
Exact == LET m == MergedCuts(net, K) IN \A n \in AN!Gates(net) : m[n + 1] = MinSeparators(net, n, K)
Emit == [][PrintT(<<"PATH", ToJson(path')>>)]_vars
==============================================================================
