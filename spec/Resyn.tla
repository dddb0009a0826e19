-------------------------------- MODULE Resyn --------------------------------
(***************************************************************************)
(* Resynthesis: a caller asks for a function (a truth table) of some       *)
(* literals of a network and is handed literals that compute it; the       *)
(* network only grows.                                                     *)
(*   fact  the factored form of the function: exactly one answer;          *)
(*   npn   structures from the library, at most x of them if x > 0: at     *)
(*         least one for every function;                                   *)
(*   reb   a balanced sum of products over literals with arrival levels,   *)
(*         answered iff it beats level x, or matches it at a cost below y; *)
(*   balance  another network with the same interface and functions.       *)
(***************************************************************************)
EXTENDS AigNet
KN == INSTANCE Klut

\* the truth table tt over the values x of the leaves
Compose(tt, x, nw) == KN!LutV(tt, x, nw)

Max2(l, p) == IF l > p THEN l ELSE p
\* level of every node over the given levels of some literals' nodes (at least 0 elsewhere)
ArriveObl(e, N, P) ==
    LET base == [i \in 1..Size(P) |-> IF i > Size(N) THEN 0 ELSE LET S == {k \in 1..e.n : Node(e.leaves[k]) = i - 1} IN IF S = {} THEN 0 ELSE e.lev[CHOOSE k \in S : \A m \in S : e.lev[k] >= e.lev[m]]]
        new == SelectSeq(Order(P).seq, LAMBDA n : n >= Size(N))
        lv == FoldLeft(LAMBDA v, n : [v EXCEPT ![n + 1] = 1 + Max2(v[Node(Fi(P, n)[1]) + 1], v[Node(Fi(P, n)[2]) + 1])], base, new)
    IN  Tag("reb", "level", \A i \in 1..Len(e.got) : Node(e.got[i][1]) >= Size(N) => e.got[i][2] >= lv[Node(e.got[i][1]) + 1])
        \cup Tag("reb", "better", \A i \in 1..Len(e.got) : e.got[i][2] < e.x \/ (e.got[i][2] = e.x /\ e.got[i][3] < e.y))

AskObl(e, N) ==
    LET P == e.post
        v == Values(P, Order(P).seq)
        want == Compose(e.tt, [k \in 1..e.n |-> LitV(v, e.leaves[k])], NWords(Len(P.pis)))
    IN
    Tag(e.op, "keeps", Extends(N, P) /\ P.pis = N.pis /\ P.outs = N.outs)
    \cup Tag(e.op, "func", \A i \in 1..Len(e.got) : Node(e.got[i][1]) \in Nodes(P) /\ LitV(v, e.got[i][1]) = want)
    \cup Tag(e.op, "answers", CASE e.op = "fact" -> Len(e.got) = 1
                                [] e.op = "npn" -> Len(e.got) >= 1 /\ (e.x > 0 => Len(e.got) <= e.x)
                                [] e.op = "reb" -> Len(e.got) <= 1 /\ (e.x >= 1000 => Len(e.got) = 1))
    \cup (IF e.op = "reb" /\ Extends(N, P) THEN ArriveObl(e, N, P) ELSE {})

RObl(e, N) ==
    IF e.res = -2 THEN {e.op \o ".crash"}
    ELSE LET s == StructObl(e.op, e.post) \cup (IF e.op = "balance" THEN StructObl("balance.out", e.out) ELSE {}) IN
    IF s # {} THEN s
    ELSE FreshObl(e.op, e.post) \cup
         CASE e.op = "net" -> {}
           [] e.op = "balance" -> FreshObl("balance.out", e.out) \cup Tag("balance", "keeps", Net(e.post) = N)
                \cup Tag("balance", "iface", Len(e.out.pis) = Len(N.pis) /\ Len(e.out.outs) = Len(N.outs))
                \cup Tag("balance", "func", Len(e.out.pis) = Len(N.pis) => OutValues(e.out) = OutValues(N))
           [] OTHER -> AskObl(e, N)
RLegal(e, N) ==
    IF e.op \in {"net", "balance"} THEN TRUE
    ELSE /\ Len(e.leaves) = e.n /\ (e.op = "npn" => e.n <= 4) /\ (e.op = "reb" => Len(e.lev) = e.n /\ \A i, j \in 1..e.n : Node(e.leaves[i]) = Node(e.leaves[j]) => e.lev[i] = e.lev[j])
         /\ \A k \in 1..e.n : Node(e.leaves[k]) \in Nodes(N)
===============================================================================
