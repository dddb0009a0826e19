------------------------------- MODULE MCEquiv -------------------------------
(***************************************************************************)
(* Why a validator that builds clauses on demand tells the truth, explored *)
(* on small AIGs.  built is the set of gates whose clauses the solver has; *)
(* a question adds the cones it is about, and is answered from the         *)
(* assignments that satisfy the clauses - not from the network.  After     *)
(* MaxAsk questions the solver starts over.  Truth: the answer is the one  *)
(* the network gives.  Every transition is emitted for replay.             *)
(***************************************************************************)
EXTENDS Equiv, Json, TLC
CONSTANTS MaxPi, MaxGate, MaxAsk, Total
VARIABLES net, val, built, asked, verdict, path
vars == <<net, val, built, asked, verdict, path>>
Do(c) == path' = Append(path, c)
Lits == 0..(2 * Size(net) - 1)
Asked == Len(SelectSeq(path, LAMBDA c : c[1] \in Asks))
Stop == Asked >= Total
Cone(n) == {m \in ReachFrom(net, {n}) : IsGate(net, m)}
Models(B) == {m \in [Nodes(net) -> BOOLEAN] : ~m[0] /\ \A n \in B : m[n] = ((m[Node(Fi(net, n)[1])] # (Neg(Fi(net, n)[1]) = 1)) /\ (m[Node(Fi(net, n)[2])] # (Neg(Fi(net, n)[2]) = 1)))}
Val(m, l) == m[Node(l)] # (Neg(l) = 1)
AfterAsk(B) == IF asked + 1 >= MaxAsk THEN built' = {} /\ asked' = 0 ELSE built' = B /\ asked' = asked + 1
V0 == Values(net, Order(net).seq)

AddPi == /\ val = "none" /\ Len(net.pis) < MaxPi /\ Gates(net) = {} /\ net' = MkPi(net)[1] /\ Do(<<"pi">>) /\ UNCHANGED <<val, built, asked>> /\ verdict' = <<>>
AddAnd == /\ Cardinality(Gates(net)) < MaxGate
          /\ \E a \in Lits, b \in Lits : a < b /\ LET r == MkAnd(net, a, b) IN r[1] # net /\ net' = r[1] /\ Do(<<"and", a, b>>)
          /\ UNCHANGED <<val, built, asked>> /\ verdict' = <<>>
New == val = "none" /\ val' = "ready" /\ built' = {} /\ asked' = 0 /\ verdict' = <<>> /\ Do(<<"vnew">>) /\ UNCHANGED net
AskEq == val = "ready" /\ \E f, d \in Lits :
         LET B == built \cup Cone(Node(f)) \cup Cone(Node(d)) IN
         /\ verdict' = <<\A m \in Models(B) : Val(m, f) = Val(m, d), LitV(V0, f) = LitV(V0, d)>>
         /\ AfterAsk(B) /\ Do(<<"val", f, d>>) /\ UNCHANGED <<net, val>>
AskConst == val = "ready" /\ \E f \in Lits, c \in 0..1 :
         LET B == built \cup Cone(Node(f)) IN
         /\ verdict' = <<\A m \in Models(B) : Val(m, f) = (c = 1), LitV(V0, f) = ConstV(1, c = 1)>>
         /\ AfterAsk(B) /\ Do(<<"valc", f, c>>) /\ UNCHANGED <<net, val>>
AskGen == val = "ready" /\ \E f \in Lits, c \in 0..1 :
         LET B == built \cup Cone(Node(f)) IN
         /\ verdict' = <<{[i \in 1..Len(net.pis) |-> m[net.pis[i]]] : m \in {x \in Models(B) : Val(x, f) = (c = 1)}},
                         {[i \in 1..Len(net.pis) |-> (x \div Pow2(i - 1)) % 2 = 1] : x \in {y \in 0..(Pow2(Len(net.pis)) - 1) : AtI(LitV(V0, f), y) = c}}>>
         /\ AfterAsk(B) /\ Do(<<"gen", f, c>>) /\ UNCHANGED <<net, val>>
Init == net = Empty /\ val = "none" /\ built = {} /\ asked = 0 /\ verdict = <<>> /\ path = <<>>
Next == ~Stop /\ (AddPi \/ AddAnd \/ New \/ AskEq \/ AskConst \/ AskGen)
Spec == Init /\ [][Next]_vars
View == <<net, val, built, asked, verdict, Asked>>
Truth == verdict = <<>> \/ verdict[1] = verdict[2]
Closed == \A n \in built : Cone(n) \subseteq built
Emit == [][PrintT(<<"PATH", ToJson(path')>>)]_vars
=============================================================================
