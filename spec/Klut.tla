--------------------------------- MODULE Klut ---------------------------------
(***************************************************************************)
(* LUT networks as a state machine of their programming interface.         *)
(*   fi   |-> for every node from 0 its fanin nodes (<<>> for the two      *)
(*            constants 0, 1 and the inputs),                              *)
(*   tt   |-> its truth table, 16-bit words, least significant first;      *)
(*            fanin j is variable j (bit j of the index),                  *)
(*   pis, outs |-> nodes.                                                  *)
(***************************************************************************)
EXTENDS Lut, Graph, Integers, TLC
AN == INSTANCE AigNet

KSize(N) == Len(N.fi)
KNodes(N) == 0..(KSize(N) - 1)
KFi(N, n) == N.fi[n + 1]
KIsPi(N, n) == \E i \in 1..Len(N.pis) : N.pis[i] = n
KGates(N) == {n \in KNodes(N) : n > 1 /\ ~KIsPi(N, n)}
KEmpty == [fi |-> << <<>>, <<>> >>, tt |-> << <<>>, <<>> >>, pis |-> <<>>, outs |-> <<>>]

KTerms(N) == LET np == Len(N.pis) IN
    [i \in 1..KSize(N) |->
        IF i = 2 THEN ConstV(NWords(np), TRUE)
        ELSE LET S == {k \in 1..np : N.pis[k] = i - 1} IN
             IF S = {} THEN ConstV(NWords(np), FALSE) ELSE LET k == CHOOSE k \in S : TRUE IN [w \in 1..NWords(np) |-> VarWord(k, w - 1)]]
LutV(tt, x, nw) == [w \in 1..nw |-> LutWord(Len(x), tt, [j \in 1..Len(x) |-> x[j][w]])]
KValues(N) ==
    LET nw == NWords(Len(N.pis)) IN
    FoldLeft(LAMBDA v, n : IF KFi(N, n) = <<>> THEN v
                           ELSE [v EXCEPT ![n + 1] = LutV(N.tt[n + 1], [j \in 1..Len(KFi(N, n)) |-> v[KFi(N, n)[j] + 1]], nw)],
             KTerms(N), GOrder(N.fi).seq)
KOuts(N) == LET v == KValues(N) IN [j \in 1..Len(N.outs) |-> v[N.outs[j] + 1]]

KRefs(N) ==
    LET add(r, n) == [r EXCEPT ![n + 1] = @ + 1] IN
    FoldLeft(add, FoldLeft(LAMBDA r, f : FoldLeft(add, r, f), [i \in 1..KSize(N) |-> 0], N.fi), N.outs)

(* Named gates: their truth tables; fanin 1 is variable 0.                 *)
NamedTT(op) ==
    CASE op = "not" -> <<1>> [] op = "and" -> <<8>> [] op = "or" -> <<14>> [] op = "lt" -> <<4>> [] op = "le" -> <<13>>
      [] op = "xor" -> <<6>> [] op = "maj" -> <<232>> [] op = "ite" -> <<216>> [] op = "xor3" -> <<150>>
Named == {"not", "and", "or", "lt", "le", "xor", "maj", "ite", "xor3"}

KAppend(N, ch, tt) == [N EXCEPT !.fi = Append(@, ch), !.tt = Append(@, tt)]
KPi(N) == [N EXCEPT !.fi = Append(@, <<>>), !.tt = Append(@, <<>>), !.pis = Append(@, KSize(N))]
KPo(N, n) == [N EXCEPT !.outs = Append(@, n)]
KSubst(N, o, n) == LET m(x) == IF x = o THEN n ELSE x IN
    [N EXCEPT !.fi = [i \in 1..KSize(N) |-> [j \in 1..Len(@[i]) |-> m(@[i][j])]], !.outs = [j \in 1..Len(@) |-> m(@[j])]]

KNet(P) == [fi |-> P.fi, tt |-> P.tt, pis |-> P.pis, outs |-> P.outs]
KTag(op, name, ok) == IF ok THEN {} ELSE {op \o "." \o name}
ASet(s) == {s[i] : i \in 1..Len(s)}
AOnce(s) == Cardinality(ASet(s)) = Len(s)

KForward(N) == \A n \in KNodes(N) : \A k \in 1..Len(KFi(N, n)) : KFi(N, n)[k] < n
(* 2^k bits for k fanins                                                   *)
TTFits(tt, k) == Len(tt) = (IF k < 4 THEN 1 ELSE Pow2(k) \div 16) /\ (k < 4 => tt[1] < Pow2(Pow2(k)))

KShow(op, P) ==
    LET sane == /\ KSize(P) >= 2 /\ Len(P.tt) = KSize(P)
                /\ \A n \in KNodes(P) : \A k \in 1..Len(KFi(P, n)) : KFi(P, n)[k] \in KNodes(P)
                /\ \A j \in 1..Len(P.outs) : P.outs[j] \in KNodes(P)
                /\ \A i \in 1..Len(P.pis) : P.pis[i] \in KNodes(P) /\ KFi(P, P.pis[i]) = <<>>
                /\ \A n \in KGates(P) : KFi(P, n) # <<>> /\ TTFits(P.tt[n + 1], Len(KFi(P, n)))
    IN  IF ~sane THEN {op \o ".sane"}
        ELSE KTag(op, "iterate", /\ AOnce(P.gates) /\ ASet(P.gates) = KGates(P) /\ AOnce(P.nodes) /\ ASet(P.nodes) = KNodes(P))
             \cup KTag(op, "count", /\ P.ngates = Cardinality(KGates(P)) /\ P.npis = Len(P.pis) /\ P.npos = Len(P.outs) /\ P.size = KSize(P)
                                    /\ P.stat = [k \in 1..Len(P.stat) |-> Cardinality({n \in KGates(P) : Len(KFi(P, n)) = k})])
             \cup KTag(op, "fanout", P.refs = KRefs(P))

KExtends(N, P) == KSize(P) >= KSize(N) /\ \A i \in 1..KSize(N) : P.fi[i] = N.fi[i] /\ P.tt[i] = N.tt[i]
KAdds(e, N) == KTag(e.op, "events", e.mod = <<>> /\ e.del = <<>> /\ AOnce(e.add) /\ ASet(e.add) = {n \in KGates(e.post) : n >= KSize(N)})
KExact(e, N, M, r) == KTag(e.op, "exact", KNet(e.post) = M /\ e.res = r) \cup KAdds(e, N)

(* n-ary gates: any tree of two-input gates                                *)
KNary(e, N) ==
    LET P == e.post  v == KValues(P)  nw == NWords(Len(P.pis))
        x == [i \in 1..Len(e.args) |-> v[e.args[i] + 1]]
        want == CASE e.op = "nary_and" -> FoldLeft(AndV, ConstV(nw, TRUE), x)
                  [] e.op = "nary_or" -> FoldLeft(LAMBDA a, b : NotV(AndV(NotV(a), NotV(b))), ConstV(nw, FALSE), x)
                  [] e.op = "nary_xor" -> FoldLeft(XorV, ConstV(nw, FALSE), x)
    IN  KTag(e.op, "keeps", KExtends(N, P) /\ P.pis = N.pis /\ P.outs = N.outs) \cup KAdds(e, N)
        \cup KTag(e.op, "func", e.res \in KNodes(P) /\ v[e.res + 1] = want)

(* Removing what no output needs; optionally unused inputs, and outputs    *)
(* that are constant or inputs.                                            *)
KClean(e, N) ==
    LET P == e.post
        r == KRefs(N)
        keepIn(p) == ~(e.args[1] = 1 /\ r[p + 1] = 0)
        keepOut(o) == ~(e.args[2] = 1 /\ (o <= 1 \/ KIsPi(N, o)))
        M == [N EXCEPT !.pis = SelectSeq(@, keepIn), !.outs = SelectSeq(@, keepOut)]
    IN  KTag(e.op, "iface", Len(P.pis) = Len(M.pis) /\ Len(P.outs) = Len(M.outs))
        \cup KTag(e.op, "func", (Len(P.pis) = Len(M.pis)) => KOuts(P) = KOuts(M))
        \cup KTag(e.op, "exact", /\ KGates(P) \subseteq GReach(P.fi, ASet(P.outs))
                                 /\ Cardinality(KGates(P)) = Cardinality(KGates(N) \cap GReach(N.fi, ASet(N.outs))))
(* LUTs depend on all their inputs and read no constants afterwards.       *)
DependsOn(tt, k, j) == \E i \in 0..(Pow2(k) - 1) : (i \div Pow2(j - 1)) % 2 = 0 /\
                         BitOf(tt[(i \div 16) + 1], i % 16) # BitOf(tt[((i + Pow2(j - 1)) \div 16) + 1], (i + Pow2(j - 1)) % 16)
KCleanLuts(e, N) ==
    LET P == e.post IN
    KTag(e.op, "iface", Len(P.pis) = Len(N.pis) /\ Len(P.outs) = Len(N.outs))
    \cup KTag(e.op, "func", (Len(P.pis) = Len(N.pis)) => KOuts(P) = KOuts(N))
    \cup KTag(e.op, "support", \A n \in KGates(P) : LET k == Len(KFi(P, n)) IN
                  \A j \in 1..k : KFi(P, n)[j] > 1 /\ DependsOn(P.tt[n + 1], k, j))
    \cup KTag(e.op, "exact", Cardinality(KGates(P)) <= Cardinality(KGates(N) \cap GReach(N.fi, ASet(N.outs))))

KSubstObl(e, N) ==
    LET o == e.args[1]  P == e.post  M == KSubst(N, o, e.args[2])
        ch == {n \in KNodes(N) : M.fi[n + 1] # N.fi[n + 1]}
        first(n) == LET i == CHOOSE i \in 1..Len(e.mod) : e.mod[i][1] = n /\ \A j \in 1..(i - 1) : e.mod[j][1] # n IN e.mod[i][2]
    IN  KTag(e.op, "exact", KNet(P) = M)
        \cup KTag(e.op, "events", /\ e.add = <<>> /\ e.del = <<>> /\ {e.mod[i][1] : i \in 1..Len(e.mod)} = ch
                                  /\ \A n \in ch : first(n) = N.fi[n + 1])

KSims(e, N) == \* the simulators
    LET o == KOuts(N) IN
    KTag("sim", "func", \A i \in 1..Len(e.sims) : e.sims[i] = o) \cup KTag("sim", "keeps", KNet(e.post) = N)

KObl(e, N) ==
    IF e.res = -2 THEN {e.op \o ".crash"}
    ELSE LET s == KShow(e.op, e.post) IN
    IF s # {} THEN s
    ELSE IF GOrder(e.post.fi).stuck THEN {e.op \o ".cyclic"}
    ELSE CASE e.op \in Named -> KExact(e, N, KAppend(N, e.args, NamedTT(e.op)), KSize(N))
           [] e.op = "node" -> IF e.args = <<>> THEN KExact(e, N, N, e.tt[1] % 2) ELSE KExact(e, N, KAppend(N, e.args, e.tt), KSize(N))
           [] e.op = "clone" -> KExact(e, N, KAppend(N, Tail(e.args), N.tt[e.args[1] + 1]), KSize(N))
           [] e.op = "pi" -> KExact(e, N, KPi(N), KSize(N))
           [] e.op = "po" -> KExact(e, N, KPo(N, e.args[1]), Len(N.outs))
           [] e.op \in {"const", "buf"} -> KExact(e, N, N, e.args[1])
           [] e.op \in {"nary_and", "nary_or", "nary_xor"} -> KNary(e, N)
           [] e.op = "subst" -> KSubstObl(e, N)
           [] e.op = "cleanup" -> KClean(e, N)
           [] e.op = "cleanluts" -> KCleanLuts(e, N)
           [] e.op = "toaig" -> KTag("toaig", "keeps", KNet(e.post) = N)
                                \cup KTag("toaig", "iface", Len(e.aig.pis) = Len(N.pis) /\ Len(e.aig.outs) = Len(N.outs))
                                \cup KTag("toaig", "struct", AN!Live(e.aig) /\ AN!Acyclic(e.aig) /\ AN!Proper(e.aig) /\ AN!Unique(e.aig))
                                \cup KTag("toaig", "func", (Len(e.aig.pis) = Len(N.pis)) => AN!OutValues(e.aig) = KOuts(N))
           [] e.op = "sim" -> KSims(e, N)
           [] e.op = "new" -> KTag("new", "empty", KNet(e.post) = KEmpty)

KLegal(e, N) ==
    CASE e.op \in {"pi", "new", "cleanup", "cleanluts"} -> TRUE
      [] e.op \in {"toaig", "sim"} -> KForward(N)
      [] e.op = "subst" -> /\ e.args[1] \in KNodes(N) /\ e.args[2] \in KNodes(N) /\ e.args[1] # e.args[2]
                           /\ ~GOrder(KSubst(N, e.args[1], e.args[2]).fi).stuck
      [] e.op = "const" -> e.args[1] \in {0, 1}
      [] e.op = "node" -> (\A i \in 1..Len(e.args) : e.args[i] \in KNodes(N)) /\ TTFits(e.tt, Len(e.args))
      [] e.op = "clone" -> (\A i \in 1..Len(e.args) : e.args[i] \in KNodes(N)) /\ e.args[1] \in KGates(N) /\ Len(e.args) = 1 + Len(KFi(N, e.args[1]))
      [] OTHER -> \A i \in 1..Len(e.args) : e.args[i] \in KNodes(N)
KAfter(e, N) == IF e.op \in {"cleanup", "cleanluts"} THEN N ELSE KNet(e.post)
=============================================================================
