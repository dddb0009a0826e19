-------------------------------- MODULE Views --------------------------------
(***************************************************************************)
(* Depth and topological views over any network, which is seen as          *)
(*   nf   |-> fanin nodes per node,   dead |-> set of removed nodes,       *)
(*   consts |-> number of constant nodes (the first ones),                 *)
(*   pis  |-> input nodes and register outputs,   outs |-> output nodes,   *)
(*   ris  |-> nodes that drive registers,                                  *)
(*   ng, og |-> 1 for every fanin or output that is complemented.          *)
(* A depth view knows the levels of a set of nodes: those reachable from   *)
(* the outputs when it was made or updated, the inputs, and everything     *)
(* that is added on top of known nodes.  It is made with two parameters:   *)
(*   cc |-> whether a complemented edge counts one level,                  *)
(*   cost |-> how many levels a node counts: one, none, or one to three.   *)
(***************************************************************************)
EXTENDS Graph, Integers
VTag(op, name, ok) == IF ok THEN {} ELSE {op \o "." \o name}
PlainView == [cc |-> 0, cost |-> 0]
NodeCost(m, n) == IF m.cost = 0 THEN 1 ELSE IF m.cost = 1 THEN 0 ELSE 1 + (n % 3)
VSet(s) == {s[i] : i \in 1..Len(s)}
VOnce(s) == Cardinality(VSet(s)) = Len(s)
Terminals(g) == 0..(g.consts - 1) \cup VSet(g.pis)
KnownAt(g) == Terminals(g) \cup GReach(g.nf, VSet(g.outs))
(* nodes from old on that were added on top of known ones                  *)
Grow(g, known, old) ==
    FoldLeft(LAMBDA k, n : IF n \in VSet(g.pis) \/ (GIn(g.nf, n) # <<>> /\ VSet(GIn(g.nf, n)) \subseteq k) THEN k \cup {n} ELSE k,
             known, [i \in 1..(Len(g.nf) - old) |-> old + i - 1])
LevelOf(g, m, lv, n) == NodeCost(m, n) + GMax({lv[GIn(g.nf, n)[k] + 1] + m.cc * g.ng[n + 1][k] : k \in 1..Len(GIn(g.nf, n))})
VLevels(g, m) ==
    FoldLeft(LAMBDA lv, n : IF GIn(g.nf, n) = <<>> THEN lv ELSE [lv EXCEPT ![n + 1] = LevelOf(g, m, lv, n)],
             [i \in 1..Len(g.nf) |-> 0], GOrder(g.nf).seq)
VDepth(g, m, lv) == GMax({lv[g.outs[j] + 1] + m.cc * g.og[j] : j \in 1..Len(g.outs)})
(* What a held view shows.                                                 *)
ShownObl(op, g, m, known, lev, depth) ==
    LET lv == VLevels(g, m) IN
    VTag(op, "level", \A n \in known : lev[n + 1] = lv[n + 1])
    \cup VTag(op, "depth", VSet(g.outs) \subseteq known => depth = VDepth(g, m, lv))
(* A topological view, of the whole network or of one node's cone.         *)
TopoObl(op, g, e) ==
    LET roots == IF e.args = <<>> THEN VSet(g.outs) \cup VSet(g.ris) ELSE {e.root}
        want  == GReach(g.nf, roots)
        cone  == {n \in want : GIn(g.nf, n) # <<>>}
        terms == [i \in 1..g.consts |-> i - 1] \o g.pis
        nt    == Len(terms)
        at    == [n \in VSet(e.order) |-> CHOOSE i \in 1..Len(e.order) : e.order[i] = n]
    IN  VTag(op, "terminals", Len(e.order) >= nt /\ SubSeq(e.order, 1, nt) = terms)
        \cup VTag(op, "gates", /\ VOnce(e.order) /\ VSet(e.order) = VSet(terms) \cup cone
                               /\ e.tgates = SubSeq(e.order, nt + 1, Len(e.order)))
        \cup VTag(op, "order", \A n \in cone \cap DOMAIN at : \A k \in 1..Len(GIn(g.nf, n)) :
                               GIn(g.nf, n)[k] \in DOMAIN at /\ at[GIn(g.nf, n)[k]] < at[n])
        \cup VTag(op, "count", /\ e.tsize = Len(e.order) /\ e.tngates = Len(e.order) - nt
                               /\ LET no == IF e.args = <<>> THEN Len(g.outs) ELSE 1 IN e.tpos = no /\ e.tnpos = no
                               /\ e.idx = [i \in 1..Len(e.order) |-> i - 1] /\ e.back = e.order)
=============================================================================
