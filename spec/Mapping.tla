------------------------------- MODULE Mapping -------------------------------
(***************************************************************************)
(* Mapped networks.  A store assigns cells to nodes of an AIG:             *)
(*   root |-> for every node 0/1, lv |-> its cell's leaves, fn |-> its     *)
(*   function <<variables, 16-bit words>> (leaf j is variable j).          *)
(* Views are names of stores; copies of a view share its store.  Mappers   *)
(* fill a store, conversions read it, checkers compare it with the AIG.    *)
(***************************************************************************)
EXTENDS Klut
MNone == [root |-> <<>>, lv |-> <<>>, fn |-> <<>>]
MEmpty(N) == [root |-> [i \in 1..AN!Size(N) |-> 0], lv |-> [i \in 1..AN!Size(N) |-> <<>>], fn |-> [i \in 1..AN!Size(N) |-> <<0, <<0>> >>]]
Roots(m) == {n \in 0..(Len(m.root) - 1) : m.root[n + 1] = 1}
Leaves(m, n) == m.lv[n + 1]
IsInput(N, n) == \E i \in 1..Len(N.pis) : N.pis[i] = n
Drivers(N) == {AN!Node(N.outs[j]) : j \in 1..Len(N.outs)} \cap AN!Gates(N)

(* The cells as a graph, and what they compute.                            *)
Cells(N, m) == [i \in 1..AN!Size(N) |-> IF m.root[i] = 1 THEN m.lv[i] ELSE <<>>]
Fits(m, n) == m.fn[n + 1][1] = Len(Leaves(m, n)) /\ TTFits(m.fn[n + 1][2], Len(Leaves(m, n)))
Shaped(N, m) == \A n \in Roots(m) : n \in AN!Gates(N) /\ Fits(m, n) /\ AOnce(Leaves(m, n)) /\ \A k \in 1..Len(Leaves(m, n)) : Leaves(m, n)[k] \in AN!Nodes(N)
Used(N, m) == GReach(Cells(N, m), Drivers(N))
(* every driver has a cell and every leaf of a used cell is an input or has one *)
Closed(N, m) == \A n \in Used(N, m) : n \in Roots(m) \/ IsInput(N, n)
(* ... and of every cell at all *)
ClosedAll(N, m) == Drivers(N) \subseteq Roots(m) /\ \A n \in Roots(m) : \A k \in 1..Len(Leaves(m, n)) : Leaves(m, n)[k] \in Roots(m) \/ IsInput(N, Leaves(m, n)[k])
InOrder(N, m) == \A n \in Roots(m) : Len(Leaves(m, n)) > 0 /\ \A k \in 1..Len(Leaves(m, n)) : Leaves(m, n)[k] < n
Forward(N, m) == InOrder(N, m) /\ \A n \in Roots(m) : ASet(Leaves(m, n)) \subseteq AN!ReachFrom(N, {n})
MOrder(N, m) == GOrder(Cells(N, m))
MValues(N, m) ==
    LET nw == NWords(Len(N.pis)) IN
    FoldLeft(LAMBDA v, n : IF m.root[n + 1] = 0 THEN v
                           ELSE [v EXCEPT ![n + 1] = LutV(m.fn[n + 1][2], [j \in 1..Len(Leaves(m, n)) |-> v[Leaves(m, n)[j] + 1]], nw)],
             AN!Terms(N), MOrder(N, m).seq)
MOuts(N, m) == LET v == MValues(N, m) IN [j \in 1..Len(N.outs) |-> AN!LitV(v, N.outs[j])]
ADepth(N) == LET lv == GLevels([i \in 1..AN!Size(N) |-> [k \in 1..Len(N.fi[i]) |-> AN!Node(N.fi[i][k])]]) IN SeqMax([j \in 1..Len(N.outs) |-> lv[AN!Node(N.outs[j]) + 1]])
MDepth(N, m) == LET lv == GLevels(Cells(N, m)) IN SeqMax([j \in 1..Len(N.outs) |-> lv[AN!Node(N.outs[j]) + 1]])

(* A cell is right if its leaves separate the node from the inputs and its *)
(* function is the node's over free leaves.                                *)
Separates(N, m, n) ==
    LET S == ASet(Leaves(m, n)) IN
    FoldLeft(LAMBDA v, g : [v EXCEPT ![g + 1] = @ \/ (v[AN!Node(N.fi[g + 1][1]) + 1] /\ v[AN!Node(N.fi[g + 1][2]) + 1])],
             [i \in 1..AN!Size(N) |-> i = 1 \/ (i - 1) \in S], AN!Order(N).seq)[n + 1]
Local(N, m, n) ==
    LET L == Leaves(m, n)
        nw == NWords(Len(L))
        v0 == [i \in 1..AN!Size(N) |-> LET K == {k \in 1..Len(L) : L[k] = i - 1} IN
                 IF K = {} THEN ConstV(nw, FALSE) ELSE [w \in 1..nw |-> VarWord(CHOOSE k \in K : TRUE, w - 1)]]
        v == FoldLeft(LAMBDA x, g : IF g \in ASet(L) THEN x ELSE [x EXCEPT ![g + 1] = AndV(AN!LitV(x, N.fi[g + 1][1]), AN!LitV(x, N.fi[g + 1][2]))], v0, AN!Order(N).seq)
    IN  LutV(m.fn[n + 1][2], [k \in 1..Len(L) |-> [w \in 1..nw |-> VarWord(k, w - 1)]], nw) = v[n + 1]
Right(N, m, n) == Separates(N, m, n) /\ Local(N, m, n)

(***************************************************************************)
(* Calls.  An event names a view e.v (from 1) and shows all views.         *)
(***************************************************************************)
Edits == {"add", "rem", "clear", "setf"}
Put(m, i, r, l) == [m EXCEPT !.root[i] = r, !.lv[i] = l]
After(e, N, m) ==
    CASE e.op = "add" -> Put(m, e.n + 1, 1, e.l)
      [] e.op = "rem" -> Put(m, e.n + 1, 0, <<>>)
      [] e.op = "clear" -> [MEmpty(N) EXCEPT !.fn = m.fn]
      [] e.op = "setf" -> [m EXCEPT !.fn[e.n + 1] = <<e.k, e.tt>>]
      [] OTHER -> m
Plain(x) == [root |-> x.root, lv |-> x.lv, fn |-> x.fn]
MapObl(e, N, x) ==
    LET m == Plain(x)
        v == AN!Values(N, AN!Order(N).seq)
    IN  IF ~Shaped(N, m) THEN {"map.shape"}
        ELSE IF MOrder(N, m).stuck THEN {"map.cyclic"}
        ELSE KTag("map", "cover", Closed(N, m))
             \cup KTag("map", "useless", Roots(m) \subseteq Used(N, m))
             \cup KTag("map", "size", \A n \in Roots(m) : Len(Leaves(m, n)) <= e.k)
             \cup KTag("map", "function", LET w == MValues(N, m) IN \A n \in Roots(m) : w[n + 1] = v[n + 1])
             \cup KTag("map", "report", e.area = Cardinality(Roots(m)) /\ e.delay = MDepth(N, m))
             \cup KTag("map", "bounds", e.choices = 1 \/ (e.area <= Cardinality(AN!Reachable(N) \cap AN!Gates(N)) /\ e.delay <= ADepth(N)))
             \cup (IF e.choices = 1 THEN {} ELSE KTag("map", "local", \A n \in Roots(m) : Right(N, m, n)))
KlutObl(e, N, m) ==
    IF ~(Drivers(N) \subseteq Roots(m)) THEN KTag("klut", "refused", e.res = 0)
    ELSE KTag("klut", "accepted", e.res = 1)
         \cup (IF e.res # 1 THEN {} ELSE
               LET sh == KShow("klut", e.post) IN IF sh # {} THEN sh ELSE
               KTag("klut", "ports", Len(e.post.pis) = Len(N.pis) /\ Len(e.post.outs) = Len(N.outs))
               \cup KTag("klut", "function", KOuts(KNet(e.post)) = MOuts(N, m))
               \cup KTag("klut", "size", Cardinality(KGates(e.post)) <= 2 * Cardinality(Roots(m)) + Len(N.pis)))
AigObl(e, N, m) ==
    KTag("aig", "ports", Len(e.post.pis) = Len(N.pis) /\ Len(e.post.outs) = Len(N.outs))
    \cup KTag("aig", "function", AN!OutValues(AN!Net(e.post)) = MOuts(N, m))
CheckObl(e, N, m) ==
    LET same == MOuts(N, m) = AN!OutValues(N) IN
    IF e.how = 2 THEN KTag("check", "verdict", e.res = (IF same THEN 1 ELSE 0))      \* by conversion and miter: exact
    ELSE KTag("check", "missed", same \/ e.res = 0)
         \cup KTag("check", "alarm", (\A n \in Roots(m) : Right(N, m, n)) => e.res = 1)
MLegal(e, N, m) ==
    CASE e.op = "add" -> e.n \in AN!Gates(N) /\ AOnce(e.l) /\ \A k \in 1..Len(e.l) : e.l[k] \in AN!Nodes(N) \ {0}
      [] e.op = "setf" -> e.n \in AN!Gates(N) /\ TTFits(e.tt, e.k)
      [] e.op = "rem" -> e.n \in AN!Nodes(N)
      [] e.op \in {"clear", "new", "copy", "map"} -> TRUE
      [] e.op = "klut" -> ~(Drivers(N) \subseteq Roots(m)) \/ (Shaped(N, m) /\ ClosedAll(N, m) /\ (IF e.how \in {0, 2} THEN Forward(N, m) ELSE InOrder(N, m)))
      [] OTHER -> Shaped(N, m) /\ InOrder(N, m) /\ ClosedAll(N, m)

ShowObl(e, vw, st) ==   \* every view shows its store
    KTag(e.op, "views", /\ Len(e.views) = Len(vw)
                        /\ \A i \in 1..Len(vw) : Plain(e.views[i]) = st[vw[i]])
    \cup KTag(e.op, "count", \A i \in 1..Len(e.views) : LET c == SeqSum(e.views[i].root) IN e.views[i].num = c /\ e.views[i].has = (IF c > 0 THEN 1 ELSE 0))
(* the stores after the call; a mapper's choice is read from the view it   *)
(* was called on                                                           *)
Stores(e, N, vw, st) ==
    CASE e.op = "new" -> Append(st, MEmpty(N))
      [] e.op = "map" -> IF Len(e.views) >= e.v THEN [st EXCEPT ![vw[e.v]] = Plain(e.views[e.v])] ELSE st
      [] e.op \in Edits -> [st EXCEPT ![vw[e.v]] = After(e, N, @)]
      [] OTHER -> st
Names_(e, vw, st) == CASE e.op = "new" -> Append(vw, Len(st) + 1) [] e.op = "copy" -> Append(vw, vw[e.v]) [] OTHER -> vw
MObl(e, N, vw, st) ==
    IF e.res = -2 THEN {e.op \o ".crash"}
    ELSE ShowObl(e, Names_(e, vw, st), Stores(e, N, vw, st))
         \cup KTag(e.op, "network", e.net = 1)
         \cup (CASE e.op = "map" -> MapObl(e, N, e.views[e.v])
                 [] e.op = "klut" -> KlutObl(e, N, st[vw[e.v]])
                 [] e.op = "aig" -> AigObl(e, N, st[vw[e.v]])
                 [] e.op = "check" -> CheckObl(e, N, st[vw[e.v]])
                 [] OTHER -> {})
==============================================================================
