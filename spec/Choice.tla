-------------------------------- MODULE Choice --------------------------------
(***************************************************************************)
(* Structural choices.  A network with choices is an AIG (as in AigNet)    *)
(* and a link to the next member of its class for every node:              *)
(*   eq[n + 1] = the next member, or -1.                                   *)
(* Classes are the lists that the links form; members have the same        *)
(* function up to phase (a node's phase is its value under the all-zero    *)
(* assignment).                                                            *)
(***************************************************************************)
EXTENDS Klut

Link(eq, n) == eq[n + 1]
Linked(eq) == {n \in 0..(Len(eq) - 1) : Link(eq, n) # -1}
(* Everything a node's implementations refer to: its fanins and the next   *)
(* member of its class.                                                    *)
Deps(N, eq) == [i \in 1..Len(N.fi) |-> [k \in 1..Len(N.fi[i]) |-> AN!Node(N.fi[i][k])] \o (IF eq[i] = -1 THEN <<>> ELSE <<eq[i]>>)]
Acyclic(N, eq) == ~GOrder(Deps(N, eq)).stuck
RECURSIVE ClassFrom(_, _, _)
ClassFrom(eq, n, seen) == IF n = -1 \/ n \in seen THEN <<>> ELSE <<n>> \o ClassFrom(eq, Link(eq, n), seen \cup {n})
TfiOf(N, eq, n) == GReach(Deps(N, eq), {n})

NPhase(v, n) == IF v[n + 1] % 2 = 1 THEN 1 ELSE 0   \* of one word
PhaseV(v) == v[1] % 2
Normal(v) == IF PhaseV(v) = 1 THEN NotV(v) ELSE v

(***************************************************************************)
(* Adding n to the class of r.                                             *)
(***************************************************************************)
ChoiceLegal(N, eq, rep, n, r) ==
    /\ {n, r} \subseteq AN!Gates(N) /\ Link(eq, n) = -1 /\ rep[n + 1] = n /\ rep[r + 1] = r
ChoiceOk(N, eq, n, r) == r < n /\ {ClassFrom(eq, r, {})[i] : i \in 1..Len(ClassFrom(eq, r, {}))} \cap TfiOf(N, eq, n) = {}
WithChoice(eq, n, r) == LET c == ClassFrom(eq, r, {}) IN [eq EXCEPT ![c[Len(c)] + 1] = n]

(***************************************************************************)
(* Multiplexers: both fanins are inverted gates that share an input in     *)
(* opposite phases.                                                        *)
(***************************************************************************)
IsMux(N, n) ==
    /\ AN!IsGate(N, n)
    /\ LET f == AN!Fi(N, n) IN
       /\ \A k \in 1..2 : AN!Neg(f[k]) = 1 /\ AN!IsGate(N, AN!Node(f[k]))
       /\ \E i, j \in 1..2 : AN!Fi(N, AN!Node(f[1]))[i] = AN!Inv(AN!Fi(N, AN!Node(f[2]))[j])

(***************************************************************************)
(* Observations.                                                           *)
(***************************************************************************)
Structure(op, P) ==
    LET N == AN!Net(P) IN
    KTag(op, "fanins", \A n \in AN!Nodes(N) : Len(N.fi[n + 1]) \in {0, 2} /\ \A k \in 1..Len(N.fi[n + 1]) : AN!Node(N.fi[n + 1][k]) < n)
    \cup KTag(op, "hashed", Cardinality({{N.fi[n + 1][1], N.fi[n + 1][2]} : n \in AN!Gates(N)}) = Cardinality(AN!Gates(N)))
    \cup KTag(op, "count", P.npis = Len(P.pis) /\ P.npos = Len(P.outs) /\ P.size = Len(P.fi))

MiterObl(e) ==
    LET P == AN!Net(e.post)
        vp == AN!Values(P, AN!Order(P).seq)
        V(N) == AN!Values(N, AN!Order(N).seq)
        A(j) == AN!Net(e.nets[j])
        vs == {vp[i] : i \in 1..Len(vp)}
        st == Structure("cmiter", e.post)
    IN  IF e.res = -2 THEN {"cmiter.crash"} ELSE
        IF st # {} THEN st ELSE
        KTag("cmiter", "interface", Len(P.pis) = Len(A(1).pis) /\ Len(P.outs) = Len(A(1).outs))
        \cup KTag("cmiter", "outputs", AN!OutValues(P) = AN!OutValues(A(1)))
        (* every gate of every network has its counterpart                  *)
        \cup KTag("cmiter", "contains", \A j \in 1..Len(e.nets) : LET v == V(A(j))
                                                                      roots == {AN!Node(A(j).outs[k]) : k \in 1..Len(A(j).outs)}
                                                                  IN \A n \in AN!ReachFrom(A(j), roots) : v[n + 1] \in vs)
        \cup KTag("cmiter", "size", Cardinality(AN!Gates(P)) <= SeqSum([j \in 1..Len(e.nets) |-> Cardinality(AN!Gates(A(j)))]))

ChoiceObl(e) ==
    LET N == AN!Net(e.net)
        P == AN!Net(e.post)
        st == Structure("choice", e.post)
        eq == e.eq
        sane == Len(eq) >= Len(P.fi) /\ \A i \in 1..Len(eq) : eq[i] = -1 \/ eq[i] \in 0..(Len(P.fi) - 1)
        q == [i \in 1..Len(P.fi) |-> eq[i]]
        v == AN!Values(P, AN!Order(P).seq)
        ln == Linked(q)
    IN  IF e.res = -2 THEN {"choice.crash"} ELSE
        IF st # {} THEN st ELSE IF ~sane THEN {"choice.links"} ELSE
        KTag("choice", "interface", Len(P.pis) = Len(N.pis) /\ Len(P.outs) = Len(N.outs))
        \cup KTag("choice", "outputs", AN!OutValues(P) = AN!OutValues(N))
        \cup KTag("choice", "acyclic", Acyclic(P, q))
        \cup KTag("choice", "order", \A n \in ln : Link(q, n) < n)
        \cup KTag("choice", "gates", \A n \in ln : {n, Link(q, n)} \subseteq AN!Gates(P))
        \cup KTag("choice", "disjoint", \A n, m \in ln : n # m => Link(q, n) # Link(q, m))
        \cup KTag("choice", "equal", \A n \in ln : Normal(v[n + 1]) = Normal(v[Link(q, n) + 1]))
        \cup KTag("choice", "phase", \A n \in AN!Gates(P) : e.post.phase[n + 1] = PhaseV(v[n + 1]))
        \cup KTag("choice", "repr", \A n \in AN!Gates(P) : (e.isrep[n + 1] = 1) = (Link(q, n) # -1 /\ e.post.refs[n + 1] > 0))
        \cup KTag("choice", "refs", [n \in 1..Len(P.fi) |-> e.post.refs[n]] = AN!Refs(P))

SetcObl(e, N, eq, rep) ==
    LET n == e.args[1]  r == e.args[2] IN
    IF e.res = -2 THEN {"setc.crash"} ELSE
    LET ok == ChoiceOk(N, eq, n, r) IN
    KTag("setc", "answer", e.res = (IF ok THEN 1 ELSE 0))
    \cup KTag("setc", "links", e.eq = (IF ok THEN WithChoice(eq, n, r) ELSE eq))
    \cup KTag("setc", "reprs", e.rep = (IF ok THEN [rep EXCEPT ![n + 1] = r] ELSE rep))
    \cup KTag("setc", "acyclic", Acyclic(N, e.eq))
    \cup KTag("setc", "isrep", \A m \in AN!Gates(N) : (e.isrep[m + 1] = 1) = (Link(e.eq, m) # -1 /\ e.refs[m + 1] > 0))
MuxObl(e, N) ==
    LET n == e.args[1]
        v == AN!Values(N, AN!Order(N).seq)
        x(l) == AN!LitV(v, l)
        ite == [w \in 1..Len(v[1]) |-> (x(e.ite[1])[w] & x(e.ite[2])[w]) | (NotW(x(e.ite[1])[w]) & x(e.ite[3])[w])]
    IN  IF e.res = -2 THEN {"mux.crash"} ELSE
        KTag("mux", "answer", e.res = (IF IsMux(N, n) THEN 1 ELSE 0))
        \cup KTag("mux", "function", e.res = 1 => AN!Neg(e.ite[1]) = 0 /\ ite = v[n + 1])
===============================================================================
