------------------------------- MODULE Netlist -------------------------------
(***************************************************************************)
(* The tool's other views of a circuit, as values: gate-level Verilog and  *)
(* DOT graphs.                                                             *)
(*                                                                         *)
(* Gate-level Verilog:                                                     *)
(*  [ports, ins, outs, wires |-> names, assigns |-> sequence of            *)
(*   [lhs |-> name, op |-> "&" "|" "^" or "", rd |-> sequence of names,    *)
(*    inv |-> sequence of 0/1]]                                            *)
(* DOT graph:                                                              *)
(*  [nodes |-> sequence of <<id, shape>>, edges |-> sequence of            *)
(*   <<from, to, style>>, ranks |-> sequence of sequences of ids]          *)
(***************************************************************************)
EXTENDS Aig, Lut

(***************************************************************************)
(* Dependency order: list the items (records with fields out and rd) so    *)
(* that everything read comes earlier; stuck if that is impossible.        *)
(***************************************************************************)
RECURSIVE Arrange(_, _, _)
Arrange(known, done, rest) ==
    LET ready == SelectSeq(rest, LAMBDA t : Names(t.rd) \subseteq known) IN
    IF ready = <<>> THEN [seq |-> done, stuck |-> rest # <<>>]
    ELSE Arrange(known \cup {ready[i].out : i \in 1..Len(ready)}, done \o ready,
                 SelectSeq(rest, LAMBDA t : ~(Names(t.rd) \subseteq known)))

IndexIn(s, x) == CHOOSE i \in 1..Len(s) : s[i] = x

(***************************************************************************)
(* Gate-level Verilog                                                      *)
(***************************************************************************)
VLhs(G)    == [i \in 1..Len(G.assigns) |-> G.assigns[i].lhs]
VReads(G)  == UNION {Names(G.assigns[i].rd) : i \in 1..Len(G.assigns)}
VDeclared(G) == Names(G.ins \o G.outs \o G.wires)

VPortsOk(G)  == G.ports = G.ins \o G.outs /\ Distinct(G.ins \o G.outs \o G.wires)
VDrivenOk(G) == /\ Distinct(VLhs(G))
                /\ Names(VLhs(G)) \subseteq Names(G.outs \o G.wires)
                /\ Names(G.outs) \subseteq Names(VLhs(G))
                /\ (VReads(G) \cap Names(G.wires)) \subseteq Names(VLhs(G))
VReadsOk(G)  == VReads(G) \subseteq Names(G.ins \o G.wires) \cup {Zero, One}
VShapeOk(G)  == \A i \in 1..Len(G.assigns) : LET a == G.assigns[i] IN
                    /\ Len(a.rd) = Len(a.inv) /\ Len(a.rd) \in 1..3
                    /\ (a.op = "") = (Len(a.rd) = 1)

VItems(G) == [i \in 1..Len(G.assigns) |->
                [out |-> G.assigns[i].lhs, rd |-> G.assigns[i].rd, inv |-> G.assigns[i].inv, op |-> G.assigns[i].op]]
VCompile(G) ==
    LET base == <<Zero, One>> \o G.ins
        a    == Arrange(Names(base), <<>>, VItems(G))
        all  == base \o [i \in 1..Len(a.seq) |-> a.seq[i].out]
        pos  == [n \in Names(all) |-> IndexIn(all, n)]
    IN  [cyclic |-> a.stuck, ni |-> Len(G.ins),
         prog |-> [i \in 1..Len(a.seq) |-> [p |-> [j \in 1..Len(a.seq[i].rd) |-> pos[a.seq[i].rd[j]]],
                                            inv |-> a.seq[i].inv, op |-> a.seq[i].op]],
         outs |-> IF a.stuck THEN <<>> ELSE [j \in 1..Len(G.outs) |-> pos[G.outs[j]]]]

VSim(C, pis) ==
    LET term(v, t, j) == IF t.inv[j] = 1 THEN FULL - v[t.p[j]] ELSE v[t.p[j]]
        val(v, t) == CASE Len(t.p) = 1 -> term(v, t, 1)
                       [] t.op = "&" -> FoldLeft(LAMBDA x, j : x & term(v, t, j), FULL, [j \in 1..Len(t.p) |-> j])
                       [] t.op = "|" -> FoldLeft(LAMBDA x, j : x | term(v, t, j), 0, [j \in 1..Len(t.p) |-> j])
                       [] OTHER      -> FoldLeft(LAMBDA x, j : x ^^ term(v, t, j), 0, [j \in 1..Len(t.p) |-> j])
        v == FoldLeft(LAMBDA acc, t : Append(acc, val(acc, t)), <<0, FULL>> \o pis, C.prog)
    IN  [j \in 1..Len(C.outs) |-> v[C.outs[j]]]
VBehaviour(C, stim) == [w \in 1..Len(stim) |-> VSim(C, stim[w])]

(***************************************************************************)
(* DOT graphs                                                              *)
(***************************************************************************)
Sel(D, shape) == LET s == SelectSeq(D.nodes, LAMBDA n : n[2] = shape) IN [i \in 1..Len(s) |-> s[i][1]]
DPis(D)    == Sel(D, "triangle")
DConsts(D) == Sel(D, "box")
DGates(D)  == Sel(D, "ellipse")
DPos(D)    == Sel(D, "invtriangle")
DIds(D)    == [i \in 1..Len(D.nodes) |-> D.nodes[i][1]]
InEdges(D, n) == SelectSeq(D.edges, LAMBDA e : e[2] = n)
DItems(D)  == LET g == DGates(D) IN
              [i \in 1..Len(g) |-> LET es == InEdges(D, g[i]) IN
                 [out |-> g[i], rd |-> [j \in 1..Len(es) |-> es[j][1]],
                  inv |-> [j \in 1..Len(es) |-> IF es[j][3] = "dashed" THEN 1 ELSE 0]]]

(* Every vertex listed once, edges between listed vertices, one edge into  *)
(* every output and none out of it.                                        *)
DotOk(D, nconst) ==
    /\ Distinct(DIds(D))
    /\ Len(D.nodes) = Len(DPis(D)) + Len(DConsts(D)) + Len(DGates(D)) + Len(DPos(D))
    /\ Len(DConsts(D)) = nconst
    /\ \A i \in 1..Len(D.edges) : /\ D.edges[i][1] \in Names(DIds(D)) \ Names(DPos(D))
                                  /\ D.edges[i][2] \in Names(DGates(D)) \cup Names(DPos(D))
                                  /\ D.edges[i][3] \in {"solid", "dashed"}
    /\ \A i \in 1..Len(DPos(D)) : Len(InEdges(D, DPos(D)[i])) = 1

(* Rank groups: every vertex that is not an output is in exactly one, and  *)
(* the vertices of a group have the same level.                            *)
DLevels(D) ==
    LET a == Arrange(Names(DPis(D) \o DConsts(D)), <<>>, DItems(D)) IN
    FoldLeft(LAMBDA lv, t : [n \in DOMAIN lv \cup {t.out} |->
                 IF n = t.out THEN 1 + SeqMax([j \in 1..Len(t.rd) |-> lv[t.rd[j]]]) ELSE lv[n]],
             [n \in Names(DPis(D) \o DConsts(D)) |-> 0], a.seq)
RanksOk(D) ==
    LET flat == FoldLeft(LAMBDA x, r : x \o r, <<>>, D.ranks)
        inner == SelectSeq(flat, LAMBDA n : n \notin Names(DPos(D)))
        lv == DLevels(D)
    IN  /\ Distinct(flat) /\ Names(flat) = Names(DIds(D))
        /\ \A i \in 1..Len(D.ranks) :
              LET r == SelectSeq(D.ranks[i], LAMBDA n : n \notin Names(DPos(D))) IN
              \A x, y \in 1..Len(r) : lv[r[x]] = lv[r[y]]

(* The AIG a graph of an AIG denotes.                                      *)
DotAig(D) ==
    LET base == DConsts(D) \o DPis(D)
        a    == Arrange(Names(base), <<>>, DItems(D))
        all  == base \o [i \in 1..Len(a.seq) |-> a.seq[i].out]
        pos  == [n \in Names(all) |-> IndexIn(all, n) - 1]
        lit(e) == 2 * pos[e[1]] + (IF e[3] = "dashed" THEN 1 ELSE 0)
    IN  IF a.stuck \/ \E i \in 1..Len(a.seq) : Len(a.seq[i].rd) # 2 THEN [ok |-> FALSE]
        ELSE [ok |-> TRUE,
              aig |-> [ni |-> Len(DPis(D)),
                       ands |-> [i \in 1..Len(a.seq) |->
                                   <<2 * pos[a.seq[i].rd[1]] + a.seq[i].inv[1], 2 * pos[a.seq[i].rd[2]] + a.seq[i].inv[2]>>],
                       outs |-> [j \in 1..Len(DPos(D)) |-> lit(InEdges(D, DPos(D)[j])[1])]]]

(***************************************************************************)
(* Same LUT graph: hash both into one table of fanin lists.                *)
(***************************************************************************)
Hash(st, t) ==    \* st = [cls |-> name -> class, tab |-> sequence of fanin class lists, nb |-> classes of the base]
    LET key == [j \in 1..Len(t.rd) |-> st.cls[t.rd[j]]]
        S == {k \in 1..Len(st.tab) : st.tab[k] = key}
        tab2 == IF S = {} THEN Append(st.tab, key) ELSE st.tab
        c == st.nb + (IF S = {} THEN Len(tab2) ELSE CHOOSE k \in S : TRUE)
    IN  [st EXCEPT !.cls = [n \in DOMAIN st.cls \cup {t.out} |-> IF n = t.out THEN c ELSE st.cls[n]], !.tab = tab2]

LutItems(N) == [i \in 1..Len(N.luts) |-> [out |-> N.luts[i].out, rd |-> N.luts[i].pins]]
SameLutGraph(N, D) ==
    LET nb == 2 + Len(N.ins)
        b1 == <<Zero, One>> \o N.ins
        b2 == DConsts(D) \o DPis(D)
        a1 == Arrange(Names(b1), <<>>, LutItems(N))
        a2 == Arrange(Names(b2), <<>>, DItems(D))
        s1 == FoldLeft(Hash, [cls |-> [n \in Names(b1) |-> IndexIn(b1, n)], tab |-> <<>>, nb |-> nb], a1.seq)
        s2 == FoldLeft(Hash, [cls |-> [n \in Names(b2) |-> IndexIn(b2, n)], tab |-> s1.tab, nb |-> nb], a2.seq)
        cnt(s, items, c) == Cardinality({i \in 1..Len(items) : s.cls[items[i].out] = c})
        src(o) == N.assigns[CHOOSE i \in 1..Len(N.assigns) : N.assigns[i][1] = o][2]
    IN  /\ Len(DConsts(D)) = 2 /\ Len(DPis(D)) = Len(N.ins) /\ Len(DPos(D)) = Len(N.outs)
        /\ ~a1.stuck /\ ~a2.stuck /\ Len(a1.seq) = Len(a2.seq)
        /\ \A i \in 1..Len(D.edges) : D.edges[i][3] = "solid"
        /\ \A c \in (nb + 1)..(nb + Len(s2.tab)) : cnt(s1, a1.seq, c) = cnt(s2, a2.seq, c)
        /\ \A j \in 1..Len(N.outs) : s1.cls[src(N.outs[j])] = s2.cls[InEdges(D, DPos(D)[j])[1][1]]
=============================================================================
