------------------------------- MODULE MCAccess -------------------------------
(***************************************************************************)
(* Every history of building a small AIG (with a register or without),     *)
(* then counting cones in it and using node maps: what goes with a node is *)
(* what cannot be reached without it, letting go and taking back cancel,   *)
(* and in any order the values hold the references that are left.          *)
(***************************************************************************)
EXTENDS Access, Json
CONSTANTS NPi, MaxRo, MaxGate, MaxOut, MaxUse, MaxMap
VARIABLES s, path, uses
vars == <<s, path, uses>>
Net0(S) == [fi |-> S.fi, dead |-> S.dead, pis |-> S.cis, outs |-> S.cos]
RefsOf(N) == AN!Refs(N)
TTOf(n) == [i \in 1..n |-> <<>>]
Post(S, N) == [fi |-> N.fi, tt |-> TTOf(Len(N.fi)), dead |-> N.dead, refs |-> RefsOf(N), ph |-> [i \in 1..Len(N.fi) |-> 0], cos |-> N.outs]
Ev(op, a, P) == [op |-> op, a |-> a, res |-> 0, post |-> P]
P0(S) == Post(S, Net0(S))
Zero1 == [Start(0) EXCEPT !.fi = << <<>> >>, !.tt = << <<>> >>, !.dead = <<0>>, !.refs = <<0>>, !.ph = <<0>>, !.ma = <<0>>, !.mb = <<0>>, !.val = <<0>>, !.vis = <<0>>]
Call(op, a, P) == LET e == Ev(op, a, P) IN Legal(s, e) /\ s' = After(s, e) /\ path' = Append(path, <<op>> \o a)
Gates0 == Ands(s)
Building == uses = 0
Init == s = Zero1 /\ path = <<>> /\ uses = 0
Build ==
    /\ Building /\ uses' = 0
    /\ \/ Len(s.cis) < NPi /\ Call("pi", <<>>, Post(s, AN!MkPi(Net0(s))[1]))
       \/ Len(s.cis) >= NPi /\ Len(s.cis) < NPi + MaxRo /\ Gates0 = {} /\ Call("ro", <<>>, Post(s, AN!MkPi(Net0(s))[1]))
       \/ Len(s.cis) >= NPi /\ Cardinality(Gates0) < MaxGate /\ s.cos = <<>>
          /\ \E x, y \in Lits(s) : x < y /\ x > 1 /\ (x % 2 = 0 \/ y % 2 = 0) /\ LET N == AN!MkAnd(Net0(s), x, y)[1] IN N # Net0(s) /\ Call("and", <<x, y>>, Post(s, N))
       \/ Len(s.cos) < MaxOut /\ \E x \in Lits(s) : x > 1 /\ x % 2 = 0 /\ (Len(s.cos) = s.npo) /\ Call("po", <<x>>, Post(s, AN!MkPo(Net0(s), x)[1]))
       \/ Len(s.cos) - s.npo < Len(s.cis) - NPi /\ \E x \in Lits(s) : x > 1 /\ x % 2 = 1 /\ Call("ri", <<x, 1>>, Post(s, AN!MkPo(Net0(s), x)[1]))
Use ==
    /\ uses < MaxUse /\ Gates0 # {} /\ uses' = uses + 1
    /\ \/ uses = 0 /\ Call("reset", <<>>, P0(s))
       \/ s.cone /\ \E n \in Gates0, op \in {"deref", "ref", "dsize", "rsize"} : Call(op, <<n>>, P0(s))
       \/ s.cone /\ s.rm = {} /\ \E n \in Gates0, x \in All(s) : Call("csize", <<n, x>>, P0(s))
Maps ==
    /\ uses < MaxMap /\ ~s.cone /\ Gates0 = {} /\ uses' = uses + 1
    /\ \/ uses = 0 /\ \E i \in {0, 1} : Call("mvec", <<i, 7>>, P0(s))
       \/ uses = 0 /\ Call("muno", <<>>, P0(s))
       \/ uses > 0 /\ \E i \in 0..(Len(s.maps) - 1) :
            \/ Len(s.maps) < 2 /\ \E d \in {0, 1} : Call("mdup", <<i, d>>, P0(s))
            \/ \E n \in {1, Sz(s) - 1} : Call("mset", <<i, n, 3 + i, 0>>, P0(s)) \/ Call("mdel", <<i, n>>, P0(s)) \/ Call("mhas", <<i, n, 0>>, P0(s)) \/ Call("mget", <<i, n, 0>>, P0(s))
            \/ Call("mreset", <<i, IF Store(s, i).vec THEN 5 ELSE 0>>, P0(s)) \/ Call("mresize", <<i, 9>>, P0(s))
       \/ uses > 0 /\ Sz(s) < 4 /\ Len(s.cis) = s.npi /\ Call("pi", <<>>, Post(s, AN!MkPi(Net0(s))[1]))
Next == Build \/ Use \/ Maps
Spec == Init /\ [][Next]_vars
NoPath == <<s, uses>>
(* what goes with n: everything that only paths through n lead to *)
Keepers == Els([i \in 1..Len(s.cos) |-> NodeOf(s, s.cos[i])]) \cup {n \in Gates0 : s.refs[n + 1] = 0}
Without(n) == GReach([i \in 1..Sz(s) |-> IF i = n + 1 THEN <<>> ELSE NF(s)[i]], Keepers \ {n})
Dominated == \A n \in Gates0 : s.cone /\ s.rm = {} => GoneBy(s, {n}) = {n} \cup ((GReach(NF(s), {n}) \ Without(n)) \cap Gates0)
Balance == s.cone => s.val = Left(s, s.rm) /\ \A n \in All(s) : s.val[n + 1] >= 0
Back == s.cone => \A n \in {m \in Gates0 \ s.rm : Free(s, s.rm \cup {m})} : LET t == [s EXCEPT !.rm = @ \cup {n}] IN More(s, s.rm, n) >= 1 /\ Left(t, t.rm \ {n}) = s.val
Emit == [][uses' > 0 => PrintT(<<"PATH", ToJson(path')>>)]_vars
===============================================================================
