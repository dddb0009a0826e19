-------------------------------- MODULE MCKlut --------------------------------
(***************************************************************************)
(* LUT networks explored exhaustively in a small scope: all networks of at *)
(* most MaxGate one- and two-input LUTs of any function.  Checked: a node  *)
(* never changes what it computes by additions; substitution and LUT       *)
(* cleaning have references that agree; every transition is emitted.       *)
(***************************************************************************)
EXTENDS Klut, Json
CONSTANTS MaxPi, MaxGate, MaxPo, Funcs
VARIABLES net, path
vars == <<net, path>>
Do(c) == path' = Append(path, c)
NoSub == IF path = <<>> THEN TRUE ELSE path[Len(path)][1] # "subst"
AddPi == Len(net.pis) < MaxPi /\ net' = KPi(net) /\ Do(<<"pi">>)
AddPo == Len(net.outs) < MaxPo /\ \E n \in KNodes(net) : net' = KPo(net, n) /\ Do(<<"po", n>>)
AddNode == /\ Cardinality(KGates(net)) < MaxGate
           /\ \/ \E a \in KNodes(net), f \in 0..3 : net' = KAppend(net, <<a>>, <<f>>) /\ Do(<<"node", f, a>>)
              \/ \E a, b \in KNodes(net), f \in Funcs : net' = KAppend(net, <<a, b>>, <<f>>) /\ Do(<<"node", f, a, b>>)
Subst == \E o, n \in KNodes(net) : /\ o # n /\ o > 1 /\ ~GOrder(KSubst(net, o, n).fi).stuck
                                   /\ net' = KSubst(net, o, n) /\ Do(<<"subst", o, n>>)
Init == net = KEmpty /\ path = <<>>
Next == NoSub /\ (AddPi \/ AddPo \/ AddNode \/ Subst)
Spec == Init /\ [][Next]_vars
NoPath == <<net, IF NoSub THEN 0 ELSE 1>>
(* What is shown of a correct network satisfies its own obligations.       *)
Shown(N) == N @@ [refs |-> KRefs(N), gates |-> SelectSeq([i \in 1..KSize(N) |-> i - 1], LAMBDA n : n \in KGates(N)), nodes |-> [i \in 1..KSize(N) |-> i - 1],
                  ngates |-> Cardinality(KGates(N)), npis |-> Len(N.pis), npos |-> Len(N.outs), size |-> KSize(N),
                  stat |-> [k \in 1..3 |-> Cardinality({n \in KGates(N) : Len(KFi(N, n)) = k})]]
Consistent == KShow("x", Shown(net)) = {} /\ (NoSub => KForward(net))
Stable == [][(KSize(net') > KSize(net) /\ Len(net'.pis) = Len(net.pis)) => SubSeq(KValues(net'), 1, KSize(net)) = KValues(net)]_vars
Emit == [][PrintT(<<"PATH", ToJson(path')>>)]_vars
=============================================================================
