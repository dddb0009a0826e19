-------------------------------- MODULE Access --------------------------------
(***************************************************************************)
(* Reading a network (kind 0: AIG, literals 2n+c; kind 1: LUT network,     *)
(* literals are nodes), combinational or with registers:                   *)
(*   cis, cos   inputs and outputs in order; the first npi (npo) are       *)
(*              primary, the others belong to registers; res their resets  *)
(*   val, vis, trav, ph, ma, mb   values and marks owned by the user       *)
(*   cone, rm   counting cones: values hold the references that are left   *)
(*              after the nodes rm and all that only they need were let go *)
(*   maps, st   node maps: names of stores                                 *)
(***************************************************************************)
EXTENDS Lut, Graph, Integers, TLC
AN == INSTANCE AigNet
ATag(op, name, ok) == IF ok THEN {} ELSE {op \o "." \o name}
Els(s) == {s[i] : i \in 1..Len(s)}
Start(kind) == [kind |-> kind, fi |-> <<>>, tt |-> <<>>, dead |-> <<>>, refs |-> <<>>, ph |-> <<>>, ma |-> <<>>, mb |-> <<>>, val |-> <<>>, vis |-> <<>>, trav |-> 0,
                cis |-> <<>>, npi |-> 0, cos |-> <<>>, npo |-> 0, res |-> <<>>, cone |-> FALSE, rm |-> {}, maps |-> <<>>, st |-> <<>>]
Sz(S) == Len(S.fi)
All(S) == 0..(Sz(S) - 1)
NodeOf(S, l) == IF S.kind = 0 THEN l \div 2 ELSE l
Lits(S) == IF S.kind = 0 THEN 0..(2 * Sz(S) - 1) ELSE All(S)
Const(S, n) == n = 0 \/ (S.kind = 1 /\ n = 1)
Ins(S) == Els(S.cis)
IsDead(S, n) == S.dead[n + 1] = 1
Ands(S) == {n \in All(S) : ~Const(S, n) /\ n \notin Ins(S) /\ ~IsDead(S, n)}
NF(S) == [i \in 1..Sz(S) |-> IF S.dead[i] = 1 THEN <<>> ELSE [k \in 1..Len(S.fi[i]) |-> NodeOf(S, S.fi[i][k])]]
FirstOf(s, n) == SubSeq(s, 1, MinOf(n, Len(s)))
RestOf(s, n) == SubSeq(s, n + 1, Len(s))
First(s, x) == (CHOOSE i \in 1..Len(s) : s[i] = x /\ \A j \in 1..(i - 1) : s[j] # x) - 1
Asc(n) == [i \in 1..n |-> i - 1]
UpTo(n) == Asc(n)

(* Letting go of nodes R: all they need and nobody else does goes too.     *)
(* A node goes when its last reference goes; L stops the walk.             *)
Gone(S, R, L) ==
    LET nf == NF(S)
        seq == GOrder(nf).seq
    IN  FoldLeft(LAMBDA a, n : IF n \notin L /\ (n \in R \/ (n \in Ands(S) /\ a.cut[n + 1] > 0 /\ a.cut[n + 1] = S.refs[n + 1]))
                               THEN [gone |-> a.gone \cup {n},
                                     cut |-> FoldLeft(LAMBDA c, x : [c EXCEPT ![x + 1] = @ + 1], a.cut, nf[n + 1])]
                               ELSE a,
                 [gone |-> {}, cut |-> [i \in 1..Sz(S) |-> 0]], Reverse(seq))
Left(S, R) == LET g == Gone(S, R, {}) IN [i \in 1..Sz(S) |-> S.refs[i] - g.cut[i]]
GoneBy(S, R) == Gone(S, R, {}).gone
(* no node of R goes because of the others *)
Free(S, R) == \A r \in R : r \notin GoneBy(S, R \ {r})
More(S, R, n) == Cardinality(GoneBy(S, R \cup {n})) - Cardinality(GoneBy(S, R))

(* Lists to walk through.                                                  *)
Pairs(s) == [i \in 1..Len(s) |-> <<s[i]>>]
ListOf(S, what, n) ==
    CASE what = "node" -> Pairs(SelectSeq(Asc(Sz(S)), LAMBDA x : ~IsDead(S, x)))
      [] what = "gate" -> Pairs(SelectSeq(Asc(Sz(S)), LAMBDA x : x \in Ands(S)))
      [] what = "ci" -> Pairs(S.cis) [] what = "pi" -> Pairs(FirstOf(S.cis, S.npi)) [] what = "ro" -> Pairs(RestOf(S.cis, S.npi))
      [] what = "co" -> Pairs(S.cos) [] what = "po" -> Pairs(FirstOf(S.cos, S.npo)) [] what = "ri" -> Pairs(RestOf(S.cos, S.npo))
      [] what = "fanin" -> Pairs(S.fi[n + 1])
      [] what = "reg" -> [i \in 1..(Len(S.cis) - S.npi) |-> <<S.cos[S.npo + i], S.cis[S.npi + i]>>]
Walked(S, a) ==
    LET full == ListOf(S, a[1], a[4])
        n == IF a[2] \in {2, 3} /\ a[3] > 0 THEN MinOf(a[3], Len(full)) ELSE Len(full)
    IN  [i \in 1..n |-> Append(full[i], IF a[2] \in {1, 3} THEN i - 1 ELSE 0 - 1)]

(* Node maps.  A vector map has a value per position, the other a set of   *)
(* pairs.                                                                  *)
Store(S, i) == S.st[S.maps[i + 1]]
MPut(m, n, v) == IF m.vec THEN [m EXCEPT !.d[n + 1] = v] ELSE [m EXCEPT !.p = {q \in @ : q[1] # n} \cup {<<n, v>>}]
MHas(m, n) == IF m.vec THEN n < Len(m.d) ELSE \E q \in m.p : q[1] = n
MGet(m, n) == IF m.vec THEN m.d[n + 1] ELSE (CHOOSE q \in m.p : q[1] = n)[2]
MapOps == {"mvec", "muno", "mdup", "mset", "mget", "mhas", "mdel", "mreset", "mresize"}
WithMap(S, m) == [S EXCEPT !.st = Append(@, m), !.maps = Append(@, Len(S.st) + 1)]
OnMap(S, i, m) == [S EXCEPT !.st[S.maps[i + 1]] = m]
MapAfter(S, op, a) ==
    CASE op = "mvec" -> WithMap(S, [vec |-> TRUE, d |-> [i \in 1..Sz(S) |-> IF a[1] = 1 THEN a[2] ELSE 0], p |-> {}])
      [] op = "muno" -> WithMap(S, [vec |-> FALSE, d |-> <<>>, p |-> {}])
      [] op = "mdup" -> IF a[2] = 1 THEN WithMap(S, Store(S, a[1])) ELSE [S EXCEPT !.maps = Append(@, S.maps[a[1] + 1])]
      [] op = "mset" -> OnMap(S, a[1], MPut(Store(S, a[1]), a[2], a[3]))
      [] op = "mdel" -> OnMap(S, a[1], [Store(S, a[1]) EXCEPT !.p = {q \in @ : q[1] # a[2]}])
      [] op = "mreset" -> OnMap(S, a[1], IF Store(S, a[1]).vec THEN [Store(S, a[1]) EXCEPT !.d = [i \in 1..Sz(S) |-> a[2]]] ELSE [Store(S, a[1]) EXCEPT !.p = {}])
      [] op = "mresize" -> OnMap(S, a[1], [Store(S, a[1]) EXCEPT !.d = IF Sz(S) > Len(@) THEN @ \o [i \in 1..(Sz(S) - Len(@)) |-> a[2]] ELSE @])
      [] OTHER -> S
MapLegal(S, op, a) ==
    CASE op \in {"mvec", "muno"} -> TRUE
      [] OTHER -> /\ a[1] + 1 \in 1..Len(S.maps)
                  /\ CASE op = "mset" -> a[2] \in All(S) /\ (Store(S, a[1]).vec => a[2] < Len(Store(S, a[1]).d))
                       [] op = "mget" -> MHas(Store(S, a[1]), a[2])
                       [] op \in {"mhas", "mdel"} -> ~Store(S, a[1]).vec /\ a[2] \in All(S)
                       [] op = "mresize" -> Store(S, a[1]).vec
                       [] OTHER -> TRUE
MapAnswer(S, op, a) == CASE op = "mget" -> MGet(Store(S, a[1]), a[2]) [] op = "mhas" -> (IF MHas(Store(S, a[1]), a[2]) THEN 1 ELSE 0) [] OTHER -> 0
ShownMap(m) == IF m.vec THEN {} ELSE m.p

(***************************************************************************)
(* Calls: e.op, e.a.  Structure (e.post.fi, tt, dead, refs, ph) is taken   *)
(* as it is (other properties decide it); everything else has to follow.   *)
(***************************************************************************)
Adds == {"and", "xor", "node"}
Pad(s, n, x) == s \o [i \in 1..(n - Len(s)) |-> x]
Grown(S, P) == LET n == Len(P.fi) IN
    [S EXCEPT !.fi = P.fi, !.tt = P.tt, !.dead = P.dead, !.refs = P.refs, !.ph = P.ph, !.val = Pad(@, n, 0), !.vis = Pad(@, n, 0), !.ma = Pad(@, n, 0), !.mb = Pad(@, n, 0)]
Count(S, op) == IF op \in Adds \cup {"pi", "po", "ro", "ri", "subst", "setval", "incval", "decval", "clrval"} THEN [S EXCEPT !.cone = FALSE, !.rm = {}] ELSE S
After(S0, e) ==
    LET op == e.op  a == e.a  S == Count(S0, op)  P == e.post
        here == [S EXCEPT !.fi = P.fi, !.tt = P.tt, !.dead = P.dead, !.refs = P.refs]
    IN
    CASE op \in Adds -> Grown(S, P)
      [] op = "pi" -> [Grown(S, P) EXCEPT !.cis = Append(@, Sz(S)), !.npi = @ + 1]
      [] op = "ro" -> [Grown(S, P) EXCEPT !.cis = Append(@, Sz(S))]
      [] op = "po" -> [here EXCEPT !.cos = Append(@, a[1]), !.npo = @ + 1]
      [] op = "ri" -> [here EXCEPT !.cos = Append(@, a[1]), !.res = Append(@, a[2])]
      [] op = "subst" -> [here EXCEPT !.cos = P.cos, !.ph = P.ph]
      [] op = "setval" -> [S EXCEPT !.val[a[1] + 1] = a[2]]
      [] op = "incval" -> [S EXCEPT !.val[a[1] + 1] = @ + 1]
      [] op = "decval" -> [S EXCEPT !.val[a[1] + 1] = @ - 1]
      [] op = "clrval" -> [S EXCEPT !.val = [i \in 1..Sz(S) |-> 0]]
      [] op = "setvis" -> [S EXCEPT !.vis[a[1] + 1] = a[2]]
      [] op = "clrvis" -> [S EXCEPT !.vis = [i \in 1..Sz(S) |-> 0]]
      [] op = "inctrav" -> [S EXCEPT !.trav = @ + 1]
      [] op = "mka" -> [S EXCEPT !.ma[a[1] + 1] = a[2]]
      [] op = "mkb" -> [S EXCEPT !.mb[a[1] + 1] = a[2]]
      [] op = "pha" -> [S EXCEPT !.ph[a[1] + 1] = a[2]]
      [] op = "reset" -> [S EXCEPT !.val = S.refs, !.cone = TRUE, !.rm = {}]
      [] op = "deref" -> [S EXCEPT !.rm = @ \cup {a[1]}, !.val = Left(S, S.rm \cup {a[1]})]
      [] op = "ref" -> [S EXCEPT !.rm = @ \ {a[1]}, !.val = Left(S, S.rm \ {a[1]})]
      [] op \in MapOps -> MapAfter(S, op, a)
      [] OTHER -> S
Answer(S, op, a, e) ==
    CASE op \in {"pi", "ro"} -> (IF S.kind = 0 THEN 2 * Sz(S) ELSE Sz(S))
      [] op \in {"po", "ri"} -> Len(S.cos)
      [] op = "incval" -> S.val[a[1] + 1]
      [] op = "decval" -> S.val[a[1] + 1] - 1
      [] op \in {"deref", "dsize"} -> More(S, S.rm, a[1])
      [] op \in {"ref", "rsize"} -> More(S, S.rm \ {a[1]}, a[1])
      [] op = "csize" -> (IF a[1] \in Els(SubSeq(a, 2, Len(a))) THEN 0 ELSE Cardinality(Gone(S, {a[1]}, Els(SubSeq(a, 2, Len(a)))).gone))
      [] op \in MapOps -> MapAnswer(S, op, a)
      [] OTHER -> e.res
Legal(S, e) ==
    LET op == e.op  a == e.a IN
    CASE op = "begin" -> TRUE
      [] op = "pi" -> Len(S.cis) = S.npi
      [] op = "po" -> Len(S.cos) = S.npo /\ a[1] \in Lits(S) /\ ~IsDead(S, NodeOf(S, a[1]))
      [] op = "ri" -> a[1] \in Lits(S) /\ ~IsDead(S, NodeOf(S, a[1]))
      [] op \in {"and", "xor"} -> a[1] \in Lits(S) /\ a[2] \in Lits(S) /\ ~IsDead(S, NodeOf(S, a[1])) /\ ~IsDead(S, NodeOf(S, a[2]))
      [] op = "subst" -> a[1] \in Ands(S) /\ a[2] \in Lits(S) /\ ~IsDead(S, NodeOf(S, a[2]))
      [] op \in {"setval", "incval", "setvis", "mka", "mkb", "pha"} -> a[1] \in All(S)
      [] op = "decval" -> a[1] \in All(S) /\ S.val[a[1] + 1] > 0
      [] op \in {"deref", "dsize"} -> S.cone /\ a[1] \in Ands(S) \ S.rm /\ Free(S, S.rm \cup {a[1]})
      [] op \in {"ref", "rsize"} -> S.cone /\ a[1] \in S.rm /\ a[1] \notin GoneBy(S, S.rm \ {a[1]})
      [] op = "csize" -> S.cone /\ S.rm = {} /\ a[1] \in Ands(S)
      [] op = "walk" -> (a[1] = "fanin" => a[4] \in All(S)) /\ (a[1] = "reg" => Len(S.cis) - S.npi = Len(S.cos) - S.npo)
      [] op = "cnf" -> Len(S.cis) = S.npi /\ Len(S.cos) = S.npo /\ (a[1] < 2 \/ a[2] > S.npi)
      [] op \in MapOps -> MapLegal(S, op, a)
      [] OTHER -> TRUE

ShapeOfNet(P) == LET n == Len(P.fi)  q == <<P.tt, P.dead, P.refs, P.ph, P.ma, P.mb, P.val, P.vis, P.isci, P.ispi, P.isro, P.fs>> IN \A i \in 1..Len(q) : Len(q[i]) = n
B(x) == IF x THEN 1 ELSE 0
Lists(S, op, P) ==
    LET np == S.npi  no == S.npo  pis == FirstOf(S.cis, np)  ros == RestOf(S.cis, np)  pos == FirstOf(S.cos, no)  ris == RestOf(S.cos, no)
        firsts(s) == [i \in 1..Len(s) |-> First(s, s[i])]
    IN  ATag(op, "inputs", P.cis = S.cis /\ P.ciat = S.cis /\ P.piat = pis /\ P.roat = ros)
        \cup ATag(op, "outputs", P.cos = S.cos /\ P.coat = S.cos /\ P.poat = pos /\ P.riat = ris)
        \cup ATag(op, "numbers", P.size = Sz(S) /\ P.npi = np /\ P.npo = no /\ P.nci = Len(S.cis) /\ P.nco = Len(S.cos) /\ P.nlat = Len(S.res)
                                 /\ P.nreg = (IF Len(ros) = Len(ris) THEN Len(ros) ELSE 0 - 1))
        \cup ATag(op, "kinds", \A n \in All(S) : P.isci[n + 1] = B(n \in Ins(S)) /\ P.ispi[n + 1] = B(n \in Els(pis)) /\ P.isro[n + 1] = B(n \in Els(ros)))
        \cup ATag(op, "indices", P.cidx = UpTo(Len(S.cis)) /\ P.piidx = UpTo(np) /\ P.roidx = UpTo(Len(ros))
                                 /\ P.coidx = firsts(S.cos) /\ P.poidx = firsts(pos) /\ P.riidx = firsts(ris))
        \cup ATag(op, "registers", P.res = S.res /\ P.comb = B(ros = <<>> /\ ris = <<>>)
                                   /\ (Len(ros) = Len(ris) => P.tori = ris /\ P.toro = [i \in 1..Len(ris) |-> ros[First(ris, ris[i]) + 1]]))
        \cup ATag(op, "fanins", P.fs = [i \in 1..Sz(S) |-> Len(S.fi[i])])
Marks(S, op, P) ==
    ATag(op, "values", \A n \in All(S) : IsDead(S, n) \/ P.val[n + 1] = S.val[n + 1])
    \cup ATag(op, "visited", P.trav = S.trav /\ \A n \in All(S) : IsDead(S, n) \/ P.vis[n + 1] = S.vis[n + 1])
    \cup ATag(op, "marks", \A n \in All(S) : IsDead(S, n) \/ (P.ma[n + 1] = S.ma[n + 1] /\ P.mb[n + 1] = S.mb[n + 1] /\ P.ph[n + 1] = S.ph[n + 1]))
Same(S, P) == P.fi = S.fi /\ P.tt = S.tt /\ P.dead = S.dead /\ P.ph = S.ph
Frame(S, e) ==
    LET P == e.post  n == Sz(S) IN
    CASE e.op \in Adds \cup {"pi", "ro"} -> ATag(e.op, "changed", Len(P.fi) >= n /\ SubSeq(P.fi, 1, n) = S.fi /\ SubSeq(P.tt, 1, n) = S.tt /\ SubSeq(P.dead, 1, n) = S.dead /\ SubSeq(P.ph, 1, n) = S.ph
                                                              /\ (e.op \in {"pi", "ro"} => Len(P.fi) = n + 1 /\ P.fi[n + 1] = <<>>))
      [] e.op = "subst" -> ATag(e.op, "changed", Len(P.fi) = n /\ Len(P.cos) = Len(S.cos) /\ \A i \in 1..n : S.dead[i] = 1 => P.dead[i] = 1)
      [] e.op = "pha" -> ATag(e.op, "changed", P.fi = S.fi /\ P.tt = S.tt /\ P.dead = S.dead)
      [] e.op = "begin" -> {}
      [] OTHER -> ATag(e.op, "changed", Same(S, P) /\ (e.op \in {"po", "ri"} \/ P.refs = S.refs))
MapShow(S, e) == ATag(e.op, "maps", Len(e.maps) = Len(S.maps) /\ \A i \in 1..Len(e.maps) : Els(e.maps[i]) = ShownMap(Store(S, i - 1)) /\ Len(e.maps[i]) = Cardinality(ShownMap(Store(S, i - 1))))

(***************************************************************************)
(* Clause encodings.  Variables: 0 the constant, then the inputs, then the *)
(* gates in order from an offset; the clauses hold exactly for the         *)
(* valuations in which every gate has the value of its function.           *)
(***************************************************************************)
OrV(x, y) == NotV(AndV(NotV(x), NotV(y)))
GateFn(S, n, x, nw) ==      \* x: vectors of the fanins
    IF S.kind = 0 THEN AndV(x[1], x[2]) ELSE [w \in 1..nw |-> LutWord(Len(x), S.tt[n + 1], [j \in 1..Len(x) |-> x[j][w]])]
CnfObl(S, e) ==
    LET gates == SelectSeq(Asc(Sz(S)), LAMBDA x : x \in Ands(S))
        np == Len(S.cis)
        off == IF e.a[1] >= 2 THEN e.a[2] ELSE np + 1
        want == [i \in 1..Sz(S) |-> LET n == i - 1 IN IF n = 0 THEN 0 ELSE IF Const(S, n) THEN 1 ELSE IF n \in Ins(S) THEN 2 * (First(S.cis, n) + 1)
                                    ELSE IF IsDead(S, n) THEN 0 ELSE 2 * (off + First(gates, n))]
        lit(l) == IF S.kind = 0 THEN (IF l % 2 = 1 THEN AN!Inv(want[(l \div 2) + 1]) ELSE want[(l \div 2) + 1]) ELSE want[l + 1]
        vars == {0} \cup 1..np \cup {off + i - 1 : i \in 1..Len(gates)}
        nv == Cardinality(vars)
        col(v) == IF v <= np THEN v + 1 ELSE np + 2 + (v - off)
        exact == nv <= 11
        nw == IF exact THEN NWords(nv) ELSE NWords(np)
        (* exact: all valuations of all variables; else the values the network gives them *)
        term == [c \in 1..nv |-> IF exact THEN [w \in 1..nw |-> VarWord(c, w - 1)]
                                 ELSE IF c \in 2..(np + 1) THEN [w \in 1..nw |-> VarWord(c - 1, w - 1)] ELSE ConstV(nw, FALSE)]
        at(t, l) == IF l % 2 = 1 THEN NotV(t[col(l \div 2)]) ELSE t[col(l \div 2)]
        fn(t, n) == GateFn(S, n, [k \in 1..Len(S.fi[n + 1]) |-> at(t, lit(S.fi[n + 1][k]))], nw)
        order == SelectSeq(GOrder(NF(S)).seq, LAMBDA x : x \in Ands(S))
        run == IF exact THEN term ELSE FoldLeft(LAMBDA t, n : [t EXCEPT ![col(want[n + 1] \div 2)] = fn(t, n)], term, order)
        clause(t, c) == FoldLeft(LAMBDA x, l : OrV(x, at(t, l)), ConstV(nw, FALSE), c)
        holds(t, cs) == FoldLeft(LAMBDA x, c : AndV(x, clause(t, c)), ConstV(nw, TRUE), cs)
        legalv == \A i \in 1..Len(e.clauses) : \A k \in 1..Len(e.clauses[i]) : e.clauses[i][k] >= 0 /\ (e.clauses[i][k] \div 2) \in vars
        means == FoldLeft(LAMBDA x, n : AndV(x, NotV(XorV(run[col(want[n + 1] \div 2)], fn(run, n)))), NotV(run[1]), gates)
        (* larger networks: flipping any one gate is refused *)
        flip(n) == LET v == want[n + 1] \div 2 IN
                   holds([run EXCEPT ![col(v)] = NotV(@)], SelectSeq(e.clauses, LAMBDA c : \E k \in 1..Len(c) : c[k] \div 2 = v))
    IN  IF ~(Len(e.lits) = Sz(S) /\ Len(e.olits) = Len(S.cos)) THEN {"cnf.shape"}
        ELSE ATag("cnf", "literals", \A n \in All(S) : IsDead(S, n) \/ e.lits[n + 1] = want[n + 1])
             \cup ATag("cnf", "outputs", e.olits = [j \in 1..Len(S.cos) |-> lit(S.cos[j])])
             \cup (IF ~legalv THEN {"cnf.variables"}
                   ELSE IF exact THEN ATag("cnf", "meaning", holds(run, e.clauses) = means)
                   ELSE ATag("cnf", "refuses", holds(run, e.clauses) = ConstV(nw, TRUE))
                        \cup ATag("cnf", "constant", holds([run EXCEPT ![1] = NotV(@)], e.clauses) = ConstV(nw, FALSE))
                        \cup ATag("cnf", "allows", \A i \in 1..Len(gates) : flip(gates[i]) = ConstV(nw, FALSE)))

AObl(S, e) ==
    IF e.res = -2 THEN {e.op \o ".crash"}
    ELSE IF ~ShapeOfNet(e.post) THEN {e.op \o ".shape"}
    ELSE LET f == Frame(S, e) IN IF f # {} THEN f ELSE
         LET T == After(S, e) IN
         Lists(T, e.op, e.post) \cup Marks(T, e.op, e.post) \cup MapShow(T, e)
         \cup ATag(e.op, "answer", e.res = Answer(S, e.op, e.a, e))
         \cup (CASE e.op = "csize" -> ATag("csize", "back", e.back = e.res)
                 [] e.op = "walk" -> ATag("walk", "visits", e.seen = Walked(S, e.a))
                 [] e.op = "cnf" -> CnfObl(S, e)
                 [] OTHER -> {})
(* What a new network shows.                                               *)
Begun(e) == LET P == e.post IN
    IF e.res = -2 \/ ~ShapeOfNet(P) THEN Start(e.kind)
    ELSE [Start(e.kind) EXCEPT !.fi = P.fi, !.tt = P.tt, !.dead = P.dead, !.refs = P.refs, !.ph = P.ph, !.ma = P.ma, !.mb = P.mb, !.val = P.val, !.vis = P.vis, !.trav = P.trav]
BeginObl(e) == IF e.res = -2 THEN {"begin.crash"} ELSE Lists(Begun(e), "begin", e.post) \cup ATag("begin", "constants", Len(e.post.fi) = 1 + e.kind /\ e.post.comb = 1)
===============================================================================
