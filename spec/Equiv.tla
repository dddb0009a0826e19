-------------------------------- MODULE Equiv --------------------------------
(***************************************************************************)
(* Equivalence checking and validation.                                    *)
(*                                                                         *)
(* Miter: two networks of the same interface; the third network's only     *)
(* output is 1 exactly where they differ; the verdict is the truth and a   *)
(* counter-example is one.                                                 *)
(*                                                                         *)
(* Validator: it is attached to an AIG (val = "ready"), answers questions  *)
(* about its nodes while gates are added, and has to be updated after      *)
(* nodes were replaced (val = "stale").                                    *)
(***************************************************************************)
EXTENDS AigNet
KN == INSTANCE Klut

OutsOf(k, P) == IF k = 1 THEN KN!KOuts(P) ELSE OutValues(P)
SaneNet(k, op, P) == IF k = 1 THEN KN!KShow(op, P) \cup (IF KN!GOrder(P.fi).stuck THEN {op \o ".cyclic"} ELSE {}) ELSE StructObl(op, P)
Diff(x, y, nw) == FoldLeft(LAMBDA d, j : OrV(d, XorV(x[j], y[j])), ConstV(nw, FALSE), [j \in 1..Len(x) |-> j])
Index(bits) == FoldLeft(LAMBDA s, i : s + bits[i] * Pow2(i - 1), 0, [i \in 1..Len(bits) |-> i])
AtI(v, i) == BitOf(v[(i \div 16) + 1], i % 16)
At(v, bits) == AtI(v, Index(bits))
IsZero(v) == \A i \in 1..Len(v) : v[i] = 0

EquivObl(e) ==
    IF e.res = -2 THEN {"equiv.crash"}
    ELSE LET np == Len(e.a.pis)
             same == Len(e.a.pis) = Len(e.b.pis) /\ Len(e.a.outs) = Len(e.b.outs)
             s == IF e.has = 1 THEN SaneNet(e.ksrc, "equiv.miter", e.miter) ELSE {}
         IN
    IF s # {} THEN s
    ELSE Tag("equiv", "iface", (e.has = 1) <=> same)
         \cup (IF e.has = 0 \/ ~same THEN {} ELSE
               LET d == Diff(OutsOf(e.ka, e.a), OutsOf(e.kb, e.b), NWords(np)) IN
               IF ~(Len(e.miter.pis) = np /\ Len(e.miter.outs) = 1) THEN {"equiv.ports"}
               ELSE Tag("equiv", "miter", OutsOf(e.ksrc, e.miter)[1] = d)
                    \cup Tag("equiv", "verdict", e.eq = (IF IsZero(d) THEN 1 ELSE 0))
                    \cup Tag("equiv", "cex", e.eq = 0 => Len(e.cex) = np /\ At(d, e.cex) = 1))

(* Circuits over given nodes: gates are [type, fanins], fanins index the   *)
(* divisors and earlier gates; type 0 and, 1 xor, 2 majority.              *)
GateV(t, x) ==
    IF t = 0 THEN AndV(x[1], x[2])
    ELSE IF t = 2 THEN OrV(AndV(x[1], x[2]), AndV(x[3], OrV(x[1], x[2])))
    ELSE IF Len(x) = 2 THEN XorV(x[1], x[2]) ELSE XorV(XorV(x[1], x[2]), x[3])
CircuitV(c, v) ==
    LET d == [i \in 1..Len(c.divs) |-> v[c.divs[i] + 1]]
        r == FoldLeft(LAMBDA acc, g : Append(acc, GateV(g[1], [i \in 1..Len(g[2]) |-> IF g[2][i] % 2 = 1 THEN NotV(acc[(g[2][i] \div 2) + 1]) ELSE acc[(g[2][i] \div 2) + 1]])), d, c.gates)
    IN  IF c.neg = 1 THEN NotV(r[Len(r)]) ELSE r[Len(r)]

Asks == {"val", "valn", "valc", "valnc", "valx", "valnx", "gen"}
Roots == {"valn", "valnc", "valnx"}           \* about the node, not the literal
Ask(e, N) ==
    LET v == Values(N, Order(N).seq)
        np == Len(N.pis)
        f == LitV(v, IF e.op \in Roots THEN e.args[1] - Neg(e.args[1]) ELSE e.args[1])
    IN  IF e.op = "gen"
        THEN LET free == {i \in 0..(Pow2(np) - 1) : AtI(f, i) = e.args[2]} \ {e.args[k] : k \in 4..Len(e.args)}
                 got == {Index(e.pats[k]) : k \in 1..Len(e.pats)}
             IN  Tag("gen", "pattern", (\A k \in 1..Len(e.pats) : Len(e.pats[k]) = np) /\ got \subseteq free)
                 \cup Tag("gen", "count", Cardinality(got) = Len(e.pats) /\ Len(e.pats) = MinOf(e.args[3], Cardinality(free)))
        ELSE LET g == CASE e.op \in {"val", "valn"} -> LitV(v, e.args[2])
                        [] e.op \in {"valc", "valnc"} -> ConstV(NWords(np), e.args[2] = 1)
                        [] OTHER -> CircuitV(e.circuit, v)
                 d == XorV(f, g)
             IN  Tag(e.op, "verdict", e.res = (IF IsZero(d) THEN 1 ELSE 0))
                 \cup Tag(e.op, "cex", e.res = 0 => Len(e.cex) = np /\ At(d, e.cex) = 1)
ValObl(e, N, pure) ==
    IF e.op = "equiv" THEN EquivObl(e)
    ELSE IF e.res = -2 THEN {e.op \o ".crash"}
    ELSE IF e.op \in Asks \cup {"vnew", "vend", "upd"}
    THEN Tag(e.op, "keeps", Net(e.post) = N) \cup (IF e.op \in Asks THEN Ask(e, N) ELSE {})
    ELSE Obl(e, N, pure)
ValAfter(e, val) ==
    CASE e.op = "vnew" -> "ready" [] e.op \in {"vend", "new"} -> "none"
      [] e.op \in {"subst", "pi"} -> IF val = "none" THEN "none" ELSE "stale"
      [] e.op = "upd" -> "ready" [] OTHER -> val
AskOk(c, N) == /\ \A i \in 1..Len(c.divs) : c.divs[i] \in Nodes(N) /\ ~Dead(N, c.divs[i])
               /\ Len(c.divs) + Len(c.gates) > 0
               /\ \A k \in 1..Len(c.gates) : \A i \in 1..Len(c.gates[k][2]) : c.gates[k][2][i] \div 2 < Len(c.divs) + k - 1
ValLegal(e, N, val) ==
    LET lit(l) == Node(l) \in Nodes(N) /\ ~Dead(N, Node(l)) IN
    CASE e.op = "equiv" -> TRUE
      [] e.op \in {"vnew", "vend"} -> TRUE
      [] e.op = "upd" -> val # "none"
      [] e.op \in Asks -> val = "ready" /\ lit(e.args[1]) /\ (e.op \in {"val", "valn"} => lit(e.args[2])) /\ (e.op \in {"valx", "valnx"} => AskOk(e.circuit, N))
      [] OTHER -> Legal(e, N) /\ (e.op \in {"subst", "pi"} => TRUE)
=============================================================================
