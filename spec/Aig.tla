--------------------------------- MODULE Aig ---------------------------------
(***************************************************************************)
(* And-inverter graphs as values, and what they mean.                      *)
(*                                                                         *)
(* An AIG is a record                                                      *)
(*   [ni   |-> number of primary inputs,                                   *)
(*    ands |-> sequence of pairs <<a, b>> of literals,                     *)
(*    outs |-> sequence of literals]                                       *)
(* Variable 0 is the constant FALSE, 1..ni are the inputs and ni+k is the  *)
(* k-th AND; literal 2*v + c is variable v, inverted iff c = 1.            *)
(***************************************************************************)
EXTENDS Words, FiniteSets

Var(l)   == l \div 2
Compl(l) == l % 2
NVars(g) == 1 + g.ni + Len(g.ands)

(* Acyclic and closed: every AND refers to earlier variables only.         *)
Closed(g) == /\ \A k \in 1..Len(g.ands) :
                    /\ Var(g.ands[k][1]) < g.ni + k
                    /\ Var(g.ands[k][2]) < g.ni + k
             /\ \A j \in 1..Len(g.outs) : Var(g.outs[j]) < NVars(g)

(* No AND has a constant, equal or complementary pair of fanins.           *)
NoTrivial(g) == \A k \in 1..Len(g.ands) :
                    /\ Var(g.ands[k][1]) # 0
                    /\ Var(g.ands[k][2]) # 0
                    /\ Var(g.ands[k][1]) # Var(g.ands[k][2])

FaninSet(p) == {p[1], p[2]}

(* Structurally hashed: no two ANDs have the same two fanins.              *)
Strashed(g) == Cardinality({FaninSet(g.ands[k]) : k \in 1..Len(g.ands)})
                  = Len(g.ands)

WellFormed(g) == Closed(g) /\ NoTrivial(g) /\ Strashed(g)

(***************************************************************************)
(* Simulation of one word of assignments: the values of all variables.     *)
(***************************************************************************)
LitW(v, l) == IF l % 2 = 1 THEN FULL - v[(l \div 2) + 1]
                           ELSE v[(l \div 2) + 1]

SimAll(g, pis) ==
    FoldLeft(LAMBDA v, p : Append(v, LitW(v, p[1]) & LitW(v, p[2])),
             <<0>> \o pis, g.ands)

SimOuts(g, pis) == LET v == SimAll(g, pis)
                   IN  [j \in 1..Len(g.outs) |-> LitW(v, g.outs[j])]

(* The output functions restricted to the given stimuli.                   *)
Behaviour(g, stim) == [w \in 1..Len(stim) |-> SimOuts(g, stim[w])]

SameInterface(g, h) == g.ni = h.ni /\ Len(g.outs) = Len(h.outs)

(* Same outputs in the same order on all stimuli.                          *)
EquivOn(g, h, stim) ==
    /\ SameInterface(g, h)
    /\ \A w \in 1..Len(stim) : SimOuts(g, stim[w]) = SimOuts(h, stim[w])

(* Exact equivalence (all assignments).                                    *)
Equiv(g, h) == SameInterface(g, h) /\ EquivOn(g, h, AllStimuli(g.ni))

(***************************************************************************)
(* Structure: levels, reachability, the strashed and cleaned-up network.   *)
(***************************************************************************)
Levels(g) ==
    FoldLeft(LAMBDA v, p :
               Append(v, 1 + MaxOf(v[Var(p[1]) + 1], v[Var(p[2]) + 1])),
             [i \in 1..(1 + g.ni) |-> 0], g.ands)

Depth(g) == LET lv == Levels(g)
            IN  SeqMax([j \in 1..Len(g.outs) |-> lv[Var(g.outs[j]) + 1]])

(* Reach(g)[k] iff AND k is in the cone of some output.                    *)
Reach(g) ==
    LET base == [k \in 1..Len(g.ands) |->
                    \E j \in 1..Len(g.outs) : Var(g.outs[j]) = g.ni + k]
        mark(r, v) == IF v > g.ni THEN [r EXCEPT ![v - g.ni] = TRUE] ELSE r
        n == Len(g.ands)
    IN  FoldLeft(LAMBDA r, i :
                   LET k == n + 1 - i IN
                   IF r[k]
                   THEN mark(mark(r, Var(g.ands[k][1])), Var(g.ands[k][2]))
                   ELSE r,
                 base, [i \in 1..n |-> i])

(* Number of ANDs in the cones of the outputs.                             *)
ReachSize(g) == LET r == Reach(g)
                IN  Cardinality({k \in 1..Len(g.ands) : r[k]})

NoDangling(g) == ReachSize(g) = Len(g.ands)

(* The literal of the AND of two literals in a partially built strashed    *)
(* network s: [ands, lit] where lit is the result.                         *)
Ordered(a, b) == IF a <= b THEN <<a, b>> ELSE <<b, a>>

(* AND of two literals under structural hashing over the ordered pairs     *)
(* `tab' of existing gates: <<literal, pairs>>.                            *)
AddAnd(ni, tab, a, b) ==
    IF a = b THEN <<a, tab>>
    ELSE IF Var(a) = Var(b) THEN <<0, tab>>
    ELSE IF a = 0 \/ b = 0 THEN <<0, tab>>
    ELSE IF a = 1 THEN <<b, tab>>
    ELSE IF b = 1 THEN <<a, tab>>
    ELSE LET p == Ordered(a, b)
             S == {k \in 1..Len(tab) : tab[k] = p}
         IN  IF S # {} THEN <<2 * (ni + (CHOOSE k \in S : TRUE)), tab>>
             ELSE <<2 * (ni + Len(tab) + 1), Append(tab, p)>>

(* Rebuild g gate by gate under structural hashing.                        *)
Strash(g) ==
    LET step(acc, p) ==
          LET m(l) == IF Compl(l) = 1 THEN LET x == acc.map[Var(l) + 1]
                                           IN  IF x % 2 = 1 THEN x - 1 ELSE x + 1
                      ELSE acc.map[Var(l) + 1]
              r == AddAnd(g.ni, acc.ands, m(p[1]), m(p[2]))
          IN  [map |-> Append(acc.map, r[1]), ands |-> r[2]]
        z == FoldLeft(step, [map |-> [i \in 1..(1 + g.ni) |-> 2 * (i - 1)],
                             ands |-> <<>>], g.ands)
        m2(l) == IF Compl(l) = 1 THEN LET x == z.map[Var(l) + 1]
                                      IN  IF x % 2 = 1 THEN x - 1 ELSE x + 1
                 ELSE z.map[Var(l) + 1]
    IN  [ni |-> g.ni, ands |-> z.ands,
         outs |-> [j \in 1..Len(g.outs) |-> m2(g.outs[j])]]

(* Keep only the gates in the cones of the outputs, in order.              *)
Clean(g) ==
    LET r == Reach(g)
        z == FoldLeft(LAMBDA acc, k :
                 IF r[k]
                 THEN [map |-> Append(acc.map, 2 * (1 + g.ni + Len(acc.ands))),
                       ands |-> Append(acc.ands,
                           Ordered(acc.map[Var(g.ands[k][1]) + 1] + Compl(g.ands[k][1]),
                                   acc.map[Var(g.ands[k][2]) + 1] + Compl(g.ands[k][2])))]
                 ELSE [map |-> Append(acc.map, 0), ands |-> acc.ands],
               [map |-> [i \in 1..(1 + g.ni) |-> 2 * (i - 1)], ands |-> <<>>],
               [k \in 1..Len(g.ands) |-> k])
    IN  [ni |-> g.ni, ands |-> z.ands,
         outs |-> [j \in 1..Len(g.outs) |->
                     z.map[Var(g.outs[j]) + 1] + Compl(g.outs[j])]]

(* What reading g into a structurally hashed network and cleaning up gives *)
Canonical(g) == Clean(Strash(g))

(***************************************************************************)
(* Isomorphism of two strashed networks over the same inputs: matching     *)
(* gates bottom-up by their (already matched) fanins is the only candidate *)
(* because no two gates share fanins.  Holds iff the cones of the outputs  *)
(* are the same graphs.                                                    *)
(***************************************************************************)
Isomorphic(g, h) ==
    LET m(map, l) == map[Var(l) + 1] + Compl(l)
        gp == [k \in 1..Len(g.ands) |-> Ordered(g.ands[k][1], g.ands[k][2])]
        find(p) == LET S == {k \in 1..Len(gp) : gp[k] = p}
                   IN IF S = {} THEN -1 ELSE 2 * (g.ni + (CHOOSE k \in S : TRUE))
        map == FoldLeft(LAMBDA acc, p :
                  IF acc = <<>> THEN <<>>
                  ELSE LET a == m(acc, p[1])  b == m(acc, p[2])
                           x == find(Ordered(a, b))
                       IN  IF x = -1 THEN <<>> ELSE Append(acc, x),
                  [i \in 1..(1 + h.ni) |-> 2 * (i - 1)], h.ands)
    IN  /\ SameInterface(g, h)
        /\ Len(g.ands) = Len(h.ands)
        /\ map # <<>>
        /\ \A j \in 1..Len(h.outs) : m(map, h.outs[j]) = g.outs[j]
=============================================================================
