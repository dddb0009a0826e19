------------------------------- MODULE AigNet -------------------------------
(***************************************************************************)
(* The AIG data structure as a state machine of its programming interface. *)
(*                                                                         *)
(* The state is the network that the interface shows:                      *)
(*   fi   |-> for every node, from node 0 (the constant), <<>> for the     *)
(*            constant and the inputs, else its two fanin literals,        *)
(*   dead |-> for every node, 1 iff it was removed,                        *)
(*   pis  |-> the input nodes in order,   outs |-> the output literals.    *)
(* Literal 2*n + c is node n, inverted iff c = 1.                          *)
(*                                                                         *)
(* A call is observed as e: operation, literal arguments, answer, events   *)
(* and the network afterwards (e.post).  Obl(e) is the set of violated     *)
(* obligations.                                                            *)
(***************************************************************************)
EXTENDS Words, FiniteSets, Integers

Node(l)  == l \div 2
Neg(l)   == l % 2
Inv(l)   == IF l % 2 = 1 THEN l - 1 ELSE l + 1
NegIf(l, c) == IF c = 1 THEN Inv(l) ELSE l
Size(N)  == Len(N.fi)
Nodes(N) == 0..(Size(N) - 1)
Fi(N, n) == N.fi[n + 1]
Dead(N, n) == N.dead[n + 1] = 1
IsGate(N, n) == Fi(N, n) # <<>> /\ ~Dead(N, n)
Gates(N) == {n \in Nodes(N) : IsGate(N, n)}
IsTerm(N, n) == n = 0 \/ \E i \in 1..Len(N.pis) : N.pis[i] = n

Empty == [fi |-> << <<>> >>, dead |-> <<0>>, pis |-> <<>>, outs |-> <<>>]

(***************************************************************************)
(* Order and meaning.                                                      *)
(***************************************************************************)
RECURSIVE Sched(_, _, _, _)
Sched(N, done, seq, rest) ==      \* done: [node -> BOOLEAN] as a sequence
    LET ready == SelectSeq(rest, LAMBDA n : done[Node(Fi(N, n)[1]) + 1] /\ done[Node(Fi(N, n)[2]) + 1]) IN
    IF ready = <<>> THEN [seq |-> seq, stuck |-> rest # <<>>]
    ELSE LET s == {ready[i] : i \in 1..Len(ready)} IN
         Sched(N, [i \in 1..Len(done) |-> done[i] \/ (i - 1) \in s], seq \o ready, SelectSeq(rest, LAMBDA n : n \notin s))
GateSeq(N) == SelectSeq([i \in 1..Size(N) |-> i - 1], LAMBDA n : IsGate(N, n))
Order(N) == Sched(N, [i \in 1..Size(N) |-> IsTerm(N, i - 1)], <<>>, GateSeq(N))

(* Values of all nodes as vectors of words; only for acyclic networks.     *)
LitV(v, l) == IF Neg(l) = 1 THEN NotV(v[Node(l) + 1]) ELSE v[Node(l) + 1]
Zeros(N) == ConstV(NWords(Len(N.pis)), FALSE)
Terms(N) == LET np == Len(N.pis) IN
    [i \in 1..Size(N) |->
        LET S == {k \in 1..np : N.pis[k] = i - 1} IN
        IF S = {} THEN Zeros(N) ELSE LET k == CHOOSE k \in S : TRUE IN [w \in 1..NWords(np) |-> VarWord(k, w - 1)]]
Values(N, ord) ==
    FoldLeft(LAMBDA v, n : [v EXCEPT ![n + 1] = AndV(LitV(v, Fi(N, n)[1]), LitV(v, Fi(N, n)[2]))], Terms(N), ord)
OutValues(N) == LET v == Values(N, Order(N).seq) IN [j \in 1..Len(N.outs) |-> LitV(v, N.outs[j])]

Refs(N) ==     \* references from gates and outputs
    LET add(r, l) == [r EXCEPT ![Node(l) + 1] = @ + 1]
    IN  FoldLeft(add, FoldLeft(LAMBDA r, n : add(add(r, Fi(N, n)[1]), Fi(N, n)[2]), [i \in 1..Size(N) |-> 0], GateSeq(N)), N.outs)

RECURSIVE ReachFrom(_, _)
ReachFrom(N, s) == LET t == s \cup UNION {{Node(Fi(N, n)[1]), Node(Fi(N, n)[2])} : n \in {m \in s : IsGate(N, m)}}
                   IN  IF t = s THEN s ELSE ReachFrom(N, t)
Reachable(N) == ReachFrom(N, {Node(N.outs[j]) : j \in 1..Len(N.outs)})

(***************************************************************************)
(* Structural invariants.                                                  *)
(***************************************************************************)
Live(N)   == /\ \A n \in Gates(N) : \A k \in 1..2 : Node(Fi(N, n)[k]) \in Nodes(N) /\ ~Dead(N, Node(Fi(N, n)[k]))
             /\ \A j \in 1..Len(N.outs) : Node(N.outs[j]) \in Nodes(N) /\ ~Dead(N, Node(N.outs[j]))
Acyclic(N) == ~Order(N).stuck
Proper(N) == \A n \in Gates(N) : LET a == Node(Fi(N, n)[1])  b == Node(Fi(N, n)[2]) IN a # 0 /\ b # 0 /\ a # b
Unique(N) == Cardinality({{Fi(N, n)[1], Fi(N, n)[2]} : n \in Gates(N)}) = Cardinality(Gates(N))
Forward(N) == \A n \in Gates(N) : Node(Fi(N, n)[1]) < n /\ Node(Fi(N, n)[2]) < n
Inputs(N) == \A n \in Nodes(N) : Fi(N, n) = <<>> => IsTerm(N, n) /\ ~Dead(N, n)

(***************************************************************************)
(* The reference semantics of the constructions: what is built.            *)
(***************************************************************************)
(* AND under structural hashing: <<network, literal>>.                     *)
MkAnd(N, a, b) ==
    IF a = b THEN <<N, a>>
    ELSE IF Node(a) = Node(b) \/ a = 0 \/ b = 0 THEN <<N, 0>>
    ELSE IF a = 1 THEN <<N, b>>
    ELSE IF b = 1 THEN <<N, a>>
    ELSE LET S == {n \in Gates(N) : {Fi(N, n)[1], Fi(N, n)[2]} = {a, b}} IN
         IF S # {} THEN <<N, 2 * (CHOOSE n \in S : TRUE)>>
         ELSE <<[N EXCEPT !.fi = Append(@, IF a < b THEN <<a, b>> ELSE <<b, a>>), !.dead = Append(@, 0)], 2 * Size(N)>>
MkOr(N, a, b) == LET r == MkAnd(N, Inv(a), Inv(b)) IN <<r[1], Inv(r[2])>>
MkXor(N, a, b) == LET r == MkAnd(N, a, Inv(b))  s == MkAnd(r[1], Inv(a), b) IN MkOr(s[1], r[2], s[2])
MkIte(N, c, t, f) == LET r == MkAnd(N, c, t)  s == MkAnd(r[1], Inv(c), f) IN MkOr(s[1], r[2], s[2])
MkMaj(N, a, b, c) == LET r == MkAnd(N, a, b)  o == MkOr(r[1], a, b)  s == MkAnd(o[1], c, o[2]) IN MkOr(s[1], r[2], s[2])
MkPi(N) == <<[N EXCEPT !.fi = Append(@, <<>>), !.dead = Append(@, 0), !.pis = Append(@, Size(N))], 2 * Size(N)>>
MkPo(N, l) == <<[N EXCEPT !.outs = Append(@, l)], 0>>
FoldMk(f(_, _, _), N, ls, unit) ==
    IF ls = <<>> THEN <<N, unit>>
    ELSE FoldLeft(LAMBDA acc, l : f(acc[1], acc[2], l), <<N, ls[1]>>, Tail(ls))

Make(N, op, a) ==
    CASE op = "and"  -> MkAnd(N, a[1], a[2])
      [] op = "nand" -> LET r == MkAnd(N, a[1], a[2]) IN <<r[1], Inv(r[2])>>
      [] op = "or"   -> MkOr(N, a[1], a[2])
      [] op = "nor"  -> LET r == MkOr(N, a[1], a[2]) IN <<r[1], Inv(r[2])>>
      [] op = "lt"   -> MkAnd(N, Inv(a[1]), a[2])
      [] op = "le"   -> MkOr(N, Inv(a[1]), a[2])
      [] op = "xor"  -> MkXor(N, a[1], a[2])
      [] op = "xnor" -> LET r == MkXor(N, a[1], a[2]) IN <<r[1], Inv(r[2])>>
      [] op = "ite"  -> MkIte(N, a[1], a[2], a[3])
      [] op = "maj"  -> MkMaj(N, a[1], a[2], a[3])
      [] op = "xor3" -> LET r == MkXor(N, a[1], a[2]) IN MkXor(r[1], r[2], a[3])
      [] op = "nary_and" -> FoldMk(MkAnd, N, a, 1)
      [] op = "nary_or"  -> FoldMk(MkOr, N, a, 0)
      [] op = "nary_xor" -> FoldMk(MkXor, N, a, 0)
      [] op = "buf"  -> <<N, a[1]>>
      [] op = "not"  -> <<N, Inv(a[1])>>
      [] op = "const" -> <<N, a[1]>>
      [] op = "pi"   -> MkPi(N)
      [] op = "po"   -> MkPo(N, a[1])

(* The function that is asked for, of vectors of words.                    *)
OrV(x, y) == NotV(AndV(NotV(x), NotV(y)))
Wanted(op, x, z) ==     \* x: operand values, z: the constant 0
    CASE op = "and"  -> AndV(x[1], x[2])
      [] op = "nand" -> NotV(AndV(x[1], x[2]))
      [] op = "or"   -> OrV(x[1], x[2])
      [] op = "nor"  -> NotV(OrV(x[1], x[2]))
      [] op = "lt"   -> AndV(NotV(x[1]), x[2])
      [] op = "le"   -> OrV(NotV(x[1]), x[2])
      [] op = "xor"  -> XorV(x[1], x[2])
      [] op = "xnor" -> NotV(XorV(x[1], x[2]))
      [] op = "ite"  -> OrV(AndV(x[1], x[2]), AndV(NotV(x[1]), x[3]))
      [] op = "maj"  -> OrV(AndV(x[1], x[2]), AndV(x[3], OrV(x[1], x[2])))
      [] op = "xor3" -> XorV(XorV(x[1], x[2]), x[3])
      [] op = "nary_and" -> FoldLeft(AndV, NotV(z), x)
      [] op = "nary_or"  -> FoldLeft(OrV, z, x)
      [] op = "nary_xor" -> FoldLeft(XorV, z, x)
      [] op = "buf"  -> x[1]
      [] op = "not"  -> NotV(x[1])
      [] op = "const" -> x[1]

Builds == {"and", "nand", "or", "nor", "lt", "le", "xor", "xnor", "ite", "maj", "xor3", "nary_and", "nary_or", "nary_xor", "buf", "not", "const"}

(***************************************************************************)
(* Replacing nodes: every reference to old becomes a reference to its      *)
(* substitute.  sub is a sequence of <<old node, literal>>.                *)
(***************************************************************************)
Sub1(sub, l) == LET S == {i \in 1..Len(sub) : sub[i][1] = Node(l)} IN
    IF S = {} THEN l ELSE NegIf(sub[CHOOSE i \in S : \A j \in S : i <= j][2], Neg(l))
RECURSIVE SubAll(_, _, _)
SubAll(sub, l, k) == IF k = 0 THEN l ELSE SubAll(sub, Sub1(sub, l), k - 1)      \* substitutes may be substituted themselves
ReplaceRefs(N, sub) ==
    LET m(l) == SubAll(sub, l, Len(sub)) IN
    [N EXCEPT !.fi = [i \in 1..Size(N) |-> IF @[i] = <<>> \/ N.dead[i] = 1 THEN @[i] ELSE <<m(@[i][1]), m(@[i][2])>>],
              !.outs = [j \in 1..Len(@) |-> m(@[j])]]
(* Meaningful substitutions: existing nodes, no node ends up above itself. *)
SubOk(N, sub) ==
    /\ \A i \in 1..Len(sub) : /\ sub[i][1] \in Nodes(N) \ {0} /\ ~Dead(N, sub[i][1])
                              /\ Node(sub[i][2]) \in Nodes(N) /\ ~Dead(N, Node(sub[i][2]))
    /\ \A l \in {2 * sub[i][1] : i \in 1..Len(sub)} : Node(SubAll(sub, l, Len(sub))) \notin {sub[i][1] : i \in 1..Len(sub)}
    /\ Acyclic(ReplaceRefs(N, sub))

(* The reference: rebuild everything under the replacement.                *)
Rebuild(N, sub) ==
    LET R == ReplaceRefs(N, sub)
        base == FoldLeft(LAMBDA acc, i : MkPi(acc)[1], Empty, [i \in 1..Len(N.pis) |-> i])
        m0 == [i \in 1..Size(N) |-> IF i = 1 THEN 0 ELSE LET S == {k \in 1..Len(N.pis) : N.pis[k] = i - 1} IN IF S = {} THEN 0 ELSE 2 * (CHOOSE k \in S : TRUE)]
        lit(m, l) == NegIf(m[Node(l) + 1], Neg(l))
        z == FoldLeft(LAMBDA acc, n : LET r == MkAnd(acc[1], lit(acc[2], Fi(R, n)[1]), lit(acc[2], Fi(R, n)[2]))
                                      IN  <<r[1], [acc[2] EXCEPT ![n + 1] = r[2]]>>, <<base, m0>>, Order(R).seq)
    IN  [z[1] EXCEPT !.outs = [j \in 1..Len(N.outs) |-> lit(z[2], R.outs[j])]]

(***************************************************************************)
(* Observed calls.                                                         *)
(***************************************************************************)
Tag(op, name, ok) == IF ok THEN {} ELSE {op \o "." \o name}
Net(P) == [fi |-> P.fi, dead |-> P.dead, pis |-> P.pis, outs |-> P.outs]
SetOf(s) == {s[i] : i \in 1..Len(s)}
Once(s) == Cardinality(SetOf(s)) = Len(s)

(* What every observed network satisfies.                                  *)
ShowObl(op, P) ==
    Tag(op, "inputs", Inputs(P) /\ P.npis = Len(P.pis) /\ P.npos = Len(P.outs) /\ P.size = Size(P))
    \cup Tag(op, "live", Live(P))
    \cup Tag(op, "iterate", /\ Once(P.gates) /\ SetOf(P.gates) = Gates(P)
                            /\ Once(P.nodes) /\ SetOf(P.nodes) = {n \in Nodes(P) : ~Dead(P, n)})
    \cup Tag(op, "count", P.ngates = Cardinality(Gates(P)))
StructObl(op, P) ==
    LET s == ShowObl(op, P) IN
    IF s # {} THEN s
    ELSE IF ~Acyclic(P) THEN {op \o ".cyclic"}
    ELSE Tag(op, "proper", Proper(P)) \cup Tag(op, "unique", Unique(P))

(* While nothing was replaced: topological order, reference counts, phase. *)
FreshObl(op, P) ==
    Tag(op, "forward", Forward(P))
    \cup Tag(op, "fanout", P.refs = Refs(P))
    \cup (LET v == Values(P, Order(P).seq) IN
          Tag(op, "phase", \A n \in Gates(P) : P.phase[n + 1] = v[n + 1][1] % 2))

(* Nothing that existed is touched.                                        *)
Extends(N, P) ==
    /\ Size(P) >= Size(N)
    /\ \A i \in 1..Size(N) : P.fi[i] = N.fi[i] /\ P.dead[i] = N.dead[i]

AddsObl(e, N) ==
    Tag(e.op, "events", e.mod = <<>> /\ e.del = <<>>
        /\ Once(e.add) /\ SetOf(e.add) = {n \in Nodes(e.post) : n >= Size(N) /\ Fi(e.post, n) # <<>>})

BuildObl(e, N) ==
    LET P == e.post  v == Values(P, Order(P).seq) IN
    Tag(e.op, "keeps", Extends(N, P) /\ P.pis = N.pis /\ P.outs = N.outs)
    \cup AddsObl(e, N)
    \cup Tag(e.op, "func", /\ Node(e.res) \in Nodes(P) /\ ~Dead(P, Node(e.res))
                           /\ LitV(v, e.res) = Wanted(e.op, [i \in 1..Len(e.args) |-> LitV(v, e.args[i])], Zeros(P)))
    \cup Tag(e.op, "shared", e.op = "and" => LET r == MkAnd(N, e.args[1], e.args[2]) IN
                             r[1] = Net(P) /\ r[2] = e.res)

(* Several substitutions that change functions interact through sharing (a *)
(* gate may merge with a node that is still to be replaced), so their      *)
(* joint result is only determined if each of them keeps the function.     *)
Defined(N, sub) == Len(sub) = 1 \/ LET v == Values(N, Order(N).seq) IN \A i \in 1..Len(sub) : LitV(v, 2 * sub[i][1]) = LitV(v, sub[i][2])
SubstObl(e, N, sub) ==
    LET P == e.post
        changed == {n \in Gates(P) : Fi(P, n) # Fi(N, n)}
        died == {n \in Nodes(P) : Dead(P, n) /\ ~Dead(N, n)}
        first == [n \in {e.mod[i][1] : i \in 1..Len(e.mod)} |-> LET i == CHOOSE i \in 1..Len(e.mod) : e.mod[i][1] = n /\ \A j \in 1..(i - 1) : e.mod[j][1] # n IN e.mod[i][2]]
    IN
    Tag(e.op, "keeps", Size(P) = Size(N) /\ P.pis = N.pis /\ Len(P.outs) = Len(N.outs)
                       /\ \A n \in Nodes(N) : Dead(N, n) => Dead(P, n))
    \cup Tag(e.op, "func", Defined(N, sub) => OutValues(P) = OutValues(ReplaceRefs(N, sub)))
    \cup Tag(e.op, "events", /\ e.add = <<>> /\ Once(e.del) /\ SetOf(e.del) = died
                             /\ changed \subseteq DOMAIN first /\ DOMAIN first \subseteq changed \cup died
                             /\ \A n \in DOMAIN first : first[n] = Fi(N, n))

(* Unused inputs, and outputs that are constant or inputs, may be dropped. *)
(* Unused is what the network's own fanout count (e.srefs) calls unused;   *)
(* it may be too high after replacements, but never too low.               *)
CleanObl(e, N) ==
    LET P == e.post
        r == Refs(N)
        keepIn(p) == ~(e.args[1] = 1 /\ e.srefs[p + 1] = 0)
        keepOut(o) == ~(e.args[2] = 1 /\ IsTerm(N, Node(o)))
        M == [N EXCEPT !.pis = SelectSeq(@, keepIn), !.outs = SelectSeq(@, keepOut)]
    IN
    Tag(e.op, "used", \A i \in 1..Len(N.pis) : e.srefs[N.pis[i] + 1] = 0 => r[N.pis[i] + 1] = 0)
    \cup Tag(e.op, "iface", Len(P.pis) = Len(M.pis) /\ Len(P.outs) = Len(M.outs))
    \cup Tag(e.op, "func", Len(P.pis) = Len(M.pis) => OutValues(P) = OutValues(M))
    \cup Tag(e.op, "exact", Gates(P) \subseteq Reachable(P) /\ Cardinality(Gates(P)) <= Cardinality({n \in Reachable(N) : IsGate(N, n)}))

(* pure: nothing was replaced so far                                       *)
Obl(e, N, pure) ==
    IF e.res = -2 THEN {e.op \o ".crash"}
    ELSE LET s == StructObl(e.op, e.post) IN
    IF s # {} THEN s
    ELSE (IF pure /\ e.op \notin {"subst", "substs"} THEN FreshObl(e.op, e.post) ELSE {})
         \cup
         CASE e.op \in Builds -> BuildObl(e, N)
           [] e.op = "pi" -> Tag("pi", "exact", Net(e.post) = MkPi(N)[1] /\ e.res = MkPi(N)[2]) \cup AddsObl(e, N)
           [] e.op = "po" -> Tag("po", "exact", Net(e.post) = MkPo(N, e.args[1])[1] /\ e.res = Len(N.outs)) \cup AddsObl(e, N)
           [] e.op = "find" -> Tag("find", "keeps", Net(e.post) = N) \cup AddsObl(e, N)
                               \cup Tag("find", "answer", (e.res = 1) <=> MkAnd(N, e.args[1], e.args[2])[1] = N)
           [] e.op = "subst" -> SubstObl(e, N, << <<Node(e.args[1]), e.args[2]>> >>)
           [] e.op = "substs" -> SubstObl(e, N, e.sub)
           [] e.op = "cleanup" -> CleanObl(e, N)
           [] e.op = "sim" -> Tag("sim", "keeps", Net(e.post) = N)
                              \cup (LET o == OutValues(N) IN Tag("sim", "func", (\A i \in 1..Len(e.sims) : e.sims[i] = o) /\ (e.psims # <<>> => e.psims = o)))
           [] e.op = "new" -> Tag("new", "empty", Net(e.post) = Empty)

(* The caller's part: arguments exist, substitutions make sense.           *)
Legal(e, N) ==
    CASE e.op = "subst" -> SubOk(N, << <<Node(e.args[1]), e.args[2]>> >>)
      [] e.op = "substs" -> SubOk(N, e.sub)
      [] e.op \in {"cleanup", "new", "pi"} -> TRUE
      [] e.op = "sim" -> Forward(N)
      [] OTHER -> \A i \in 1..Len(e.args) : Node(e.args[i]) \in Nodes(N) /\ ~Dead(N, Node(e.args[i]))
NetAfter(e, N) == IF e.op = "cleanup" THEN N ELSE Net(e.post)
=============================================================================
