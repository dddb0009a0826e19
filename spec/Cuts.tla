--------------------------------- MODULE Cuts ---------------------------------
(***************************************************************************)
(* Cuts.  A cut is an ascending sequence of nodes, a cut set a sequence of *)
(* records [c |-> cut, d |-> payload] of bounded capacity.                 *)
(*   1. the cut and cut-set operations, as set operations and as           *)
(*      transitions of a cut set;                                          *)
(*   2. what enumerating the cuts of an AIG must yield;                    *)
(*   3. the cache of truth tables.                                         *)
(***************************************************************************)
EXTENDS Klut

CSet(c) == {c[i] : i \in 1..Len(c)}
Ascending(c) == \A i \in 1..(Len(c) - 1) : c[i] < c[i + 1]
Dom(a, b) == CSet(a) \subseteq CSet(b)

(***************************************************************************)
(* 1. Cut sets.                                                            *)
(***************************************************************************)
Sorted(s) == \A i \in 1..(Len(s) - 1) : Len(s[i].c) <= Len(s[i + 1].c)
Kept(s, c) == SelectSeq(s, LAMBDA x : ~Dom(c, x.c))
At(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
(* Inserting x: every cut it dominates goes; in a set ordered by size the  *)
(* order stays; a full set loses its last cut, possibly x itself.          *)
Inserted(s, cap, x, t) ==
    LET k == Kept(s, x.c)
        ok(u) == Sorted(k) => Sorted(u)
    IN  IF Len(k) < cap THEN \E i \in 1..(Len(k) + 1) : t = At(k, i, x) /\ ok(t)
        ELSE \E i \in 1..(Len(k) + 1) : ok(At(k, i, x)) /\ t = SubSeq(At(k, i, x), 1, cap)
(* Keeping the first n.                                                    *)
Limited(s, n, t) == t = IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
Promoted(s, i) == <<s[i]>> \o SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))

Antichain(s) == \A i, j \in 1..Len(s) : i # j => ~Dom(s[i].c, s[j].c)

SetLegal(e, st) ==
    CASE e.op = "new" -> TRUE
      [] e.op = "add" -> Len(st.s) < st.cap /\ Ascending(e.cut)
      [] e.op = "ins" -> Ascending(e.cut)
      [] e.op = "best" \/ e.op = "rem" -> e.args[1] < Len(st.s)
      [] e.op = "limit" -> e.args[1] > 0
      [] e.op = "resize" -> e.args[1] <= Len(st.s)
      [] OTHER -> TRUE
ShowOk(op, t, e) == KTag(op, "shape", /\ \A i \in 1..Len(t) : Ascending(t[i].c) /\ t[i].n = Len(t[i].c)
                                      /\ e.size = Len(t))
SetObl(e, st) ==
    LET s == st.s
        t == [i \in 1..Len(e.set) |-> [c |-> e.set[i].c, d |-> e.set[i].d]]
        x == [c |-> e.cut, d |-> e.d]
        same == t = s
    IN  IF e.res = -2 THEN {e.op \o ".crash"} ELSE
        ShowOk(e.op, e.set, e) \cup
        (CASE e.op = "new" -> KTag("new", "empty", t = <<>>)
           [] e.op = "add" -> KTag("add", "appended", t = Append(s, x))
           [] e.op = "ins" -> KTag("ins", "inserted", Inserted(s, st.cap, x, t))
                               \cup KTag("ins", "antichain", (Antichain(s) /\ \A i \in 1..Len(s) : ~Dom(s[i].c, x.c)) => Antichain(t))
           [] e.op = "isdom" -> KTag("isdom", "answer", same /\ e.res = (IF \E i \in 1..Len(s) : Dom(s[i].c, e.cut) THEN 1 ELSE 0))
           [] e.op = "best" -> KTag("best", "promoted", t = Promoted(s, e.args[1] + 1))
           [] e.op = "rem" -> KTag("rem", "removed", t = Without(s, e.args[1] + 1))
           [] e.op = "limit" -> KTag("limit", "prefix", Limited(s, e.args[1], t))
           [] e.op = "resize" -> KTag("resize", "prefix", t = SubSeq(s, 1, e.args[1]))
           [] e.op = "clear" -> KTag("clear", "empty", t = <<>>)
           (* two cuts on their own: union when it fits, inclusion         *)
           [] e.op = "pair" ->
                LET u == CSet(e.a) \cup CSet(e.b) IN
                KTag("merge", "answer", e.ok = (IF Cardinality(u) <= e.k THEN 1 ELSE 0))
                \cup KTag("merge", "union", e.ok = 1 => /\ CSet(e.u) = u /\ Ascending(e.u) /\ e.un = Cardinality(u)
                                                        /\ e.usame = 1)
                \cup KTag("dominates", "subset", e.ab = (IF Dom(e.a, e.b) THEN 1 ELSE 0) /\ e.ba = (IF Dom(e.b, e.a) THEN 1 ELSE 0))
                \cup KTag("less", "cost", e.lt = (IF Len(e.a) < Len(e.b) THEN 1 ELSE 0))
                \cup KTag("pair", "set", same))
SetAfter(e, st) ==
    IF e.op = "new" THEN [cap |-> e.args[1], s |-> <<>>]
    ELSE [st EXCEPT !.s = [i \in 1..Len(e.set) |-> [c |-> e.set[i].c, d |-> e.set[i].d]]]

(***************************************************************************)
(* 2. Enumeration.  N is an AIG as in AigNet.                              *)
(***************************************************************************)
GI(N) == [i \in 1..AN!Size(N) |-> [k \in 1..Len(N.fi[i]) |-> AN!Node(N.fi[i][k])]]
(* Every path from n down to an input meets the set S: computed upwards.   *)
Covered(N, order, S) ==
    FoldLeft(LAMBDA v, m : [v EXCEPT ![m + 1] = @ \/ (v[AN!Node(N.fi[m + 1][1]) + 1] /\ v[AN!Node(N.fi[m + 1][2]) + 1])],
             [i \in 1..AN!Size(N) |-> i = 1 \/ (i - 1) \in S], order)
Minimal(F) == {a \in F : \A b \in F : b \subseteq a => b = a}
Unions(A, B, k) == {x \in {a \cup b : a \in A, b \in B} : Cardinality(x) <= k}
(* The minimal sets of at most k nodes that separate each node from the    *)
(* inputs - the definition, over all subsets; and by merging the fanins'.  *)
MinSeparators(N, n, k) ==
    LET ord == AN!Order(N).seq
        cone == GReach(GI(N), {n}) \ {0}
    IN  Minimal({S \in SUBSET cone : Cardinality(S) <= k /\ Covered(N, ord, S)[n + 1]})
MergedCuts(N, k) ==
    FoldLeft(LAMBDA v, m :
        [v EXCEPT ![m + 1] = Minimal(Unions(v[AN!Node(N.fi[m + 1][1]) + 1], v[AN!Node(N.fi[m + 1][2]) + 1], k) \cup {{m}})],
        [i \in 1..AN!Size(N) |-> IF i = 1 THEN {{}} ELSE IF N.fi[i] = <<>> THEN {{i - 1}} ELSE {}], AN!Order(N).seq)

TTSupport(tt, n, j) == (* variable j matters *)
    LET f(x) == BitOf(tt[(x \div 16) + 1], x % 16) IN
    \E x \in 0..(Pow2(n) - 1) : (x \div Pow2(j - 1)) % 2 = 0 /\ f(x) # f(x + Pow2(j - 1))
CutList(e, n) == e.cuts[n + 1]
CutSets(e, n) == {CSet(CutList(e, n)[i].c) : i \in 1..Len(CutList(e, n))}
EnumObl(e) ==
    LET N == AN!Net(e.net)
        ord == AN!Order(N).seq
        gi == GI(N)
        val == AN!Values(N, ord)
        gates == {n \in 0..(AN!Size(N) - 1) : N.fi[n + 1] # <<>>}
        inner(n) == SelectSeq(CutList(e, n), LAMBDA x : x.c # <<n>>)
        fn(n, x) == x.tt # <<>> /\ TTFits(x.tt, Len(x.c)) /\ LutV(x.tt, [j \in 1..Len(x.c) |-> val[x.c[j] + 1]], NWords(Len(N.pis))) = val[n + 1]
        cone(n) == GReach(gi, {n})
        local(n) == LET a == AN!Node(N.fi[n + 1][1])
                        b == AN!Node(N.fi[n + 1][2])
                        U == Unions(CutSets(e, a), CutSets(e, b), e.k)
                        M == Minimal(U)
                        S == {CSet(inner(n)[i].c) : i \in 1..Len(inner(n))}
                    IN  /\ S \subseteq U
                        /\ Cardinality(U) <= 25 =>
                              IF Cardinality(M) <= e.p - 1 THEN S = M
                              ELSE /\ S \subseteq M /\ Cardinality(S) >= e.p - 2
                                   /\ \A s \in S, m \in M \ S : Cardinality(s) <= Cardinality(m)
    IN  IF e.res = -2 THEN {"enum.crash"} ELSE
        KTag("enum", "leaves", \A n \in 0..(AN!Size(N) - 1) : \A i \in 1..Len(CutList(e, n)) :
                LET x == CutList(e, n)[i] IN Ascending(x.c) /\ Len(x.c) <= e.k /\ CSet(x.c) \subseteq cone(n))
        \cup KTag("enum", "count", \A n \in gates : Len(inner(n)) <= e.p - 1 /\ Len(CutList(e, n)) <= e.p + 1)
        \cup KTag("enum", "terminals", /\ Len(CutList(e, 0)) = 1 /\ CutList(e, 0)[1].c = <<>>
                                       /\ \A i \in 1..Len(N.pis) : LET p == N.pis[i] IN Len(CutList(e, p)) = 1 /\ CutList(e, p)[1].c = <<p>>)
        \cup KTag("enum", "trivial", \A n \in gates : {n} \in CutSets(e, n) \/ (Len(inner(n)) = 1 /\ Len(inner(n)[1].c) <= 1))
        \cup KTag("enum", "sorted", \A n \in gates : Sorted(inner(n)))
        \cup KTag("enum", "function", e.truth = 1 => \A n \in 0..(AN!Size(N) - 1) : \A i \in 1..Len(CutList(e, n)) : fn(n, CutList(e, n)[i]))
        \cup (IF e.min = 1
              THEN KTag("enum", "support", \A n \in gates : \A i \in 1..Len(CutList(e, n)) :
                        LET x == CutList(e, n)[i] IN \A j \in 1..Len(x.c) : TTSupport(x.tt, Len(x.c), j))
              ELSE KTag("enum", "separates", \A n \in gates : \A i \in 1..Len(CutList(e, n)) : Covered(N, ord, CSet(CutList(e, n)[i].c))[n + 1])
                   \cup KTag("enum", "antichain", \A n \in gates : Antichain(CutList(e, n)))
                   \cup KTag("enum", "complete", \A n \in gates : local(n)))

(***************************************************************************)
(* 3. The cache: entries are <<variables, table>>, normal (bit 0 is 0);    *)
(* literal 2i + c is entry i, complemented iff c.                          *)
(***************************************************************************)
Flip(tt, n) == [w \in 1..Len(tt) |-> (IF n < 4 THEN Pow2(Pow2(n)) - 1 ELSE FULL) - tt[w]]
CacheObl(e, cache) ==
    LET neg == e.tt[1] % 2
        nrm == <<e.n, IF neg = 1 THEN Flip(e.tt, e.n) ELSE e.tt>>
        hit == {i \in 1..Len(cache) : cache[i] = nrm}
    IN  IF e.res = -2 THEN {"cache.crash"} ELSE
        KTag("cache", "literal", IF hit = {} THEN e.res = 2 * Len(cache) + neg ELSE \E i \in hit : e.res = 2 * (i - 1) + neg)
        \cup KTag("cache", "content", e.back = e.tt /\ e.inv = Flip(e.tt, e.n))
        \cup KTag("cache", "size", e.size = Len(cache) + (IF hit = {} THEN 1 ELSE 0))
CacheAfter(e, cache) ==
    LET nrm == <<e.n, IF e.tt[1] % 2 = 1 THEN Flip(e.tt, e.n) ELSE e.tt>> IN
    IF \E i \in 1..Len(cache) : cache[i] = nrm THEN cache ELSE Append(cache, nrm)
===============================================================================
