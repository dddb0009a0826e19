------------------------------- MODULE MCMiter -------------------------------
(***************************************************************************)
(* All pairs of small AIGs of one output: the miter construction yields    *)
(* exactly the assignments where they differ.  Every pair is emitted.      *)
(***************************************************************************)
EXTENDS Equiv, Json, TLC
CONSTANTS NPi, MaxGateA, MaxGateB
VARIABLES a, b, turn, pa, pb
vars == <<a, b, turn, pa, pb>>
Start == LET s == FoldLeft(LAMBDA n, i : MkPi(n)[1], Empty, [i \in 1..NPi |-> i]) IN s
Grow(n, max) == {<<MkAnd(n, x, y)[1], x, y>> : x, y \in 0..(2 * Size(n) - 1)}
More(n, max) == IF Cardinality(Gates(n)) >= max THEN {} ELSE {r \in Grow(n, max) : r[1] # n /\ r[2] < r[3]}
Step(n, p, max, n2, p2) == \E r \in More(n, max) : n2 = r[1] /\ p2 = Append(p, <<"and", r[2], r[3]>>)
Init == a = Start /\ b = Start /\ turn = "a" /\ pa = <<>> /\ pb = <<>>
Next ==
    IF turn = "a" THEN \/ Step(a, pa, MaxGateA, a', pa') /\ UNCHANGED <<b, turn, pb>>
                       \/ \E o \in 0..(2 * Size(a) - 1) : a' = MkPo(a, o)[1] /\ pa' = Append(pa, <<"po", o>>) /\ turn' = "b" /\ UNCHANGED <<b, pb>>
    ELSE IF turn = "b" THEN \/ Step(b, pb, MaxGateB, b', pb') /\ UNCHANGED <<a, turn, pa>>
                            \/ \E o \in 0..(2 * Size(b) - 1) : b' = MkPo(b, o)[1] /\ pb' = Append(pb, <<"po", o>>) /\ turn' = "done" /\ UNCHANGED <<a, pa>>
    ELSE FALSE
Spec == Init /\ [][Next]_vars
Pair == <<a, b, turn>>
(* Copy b onto a's inputs, exclusive-or the outputs.                       *)
Onto(n, m) == FoldLeft(LAMBDA acc, g : LET lit(l) == NegIf(acc[2][Node(l) + 1], Neg(l)) r == MkAnd(acc[1], lit(Fi(m, g)[1]), lit(Fi(m, g)[2]))
                                      IN <<r[1], [acc[2] EXCEPT ![g + 1] = r[2]]>>,
                       <<n, [i \in 1..Size(m) |-> IF i <= NPi + 1 THEN 2 * (i - 1) ELSE 0]>>, Order(m).seq)
TheMiter == LET z == Onto([a EXCEPT !.outs = <<>>], b)  o == NegIf(z[2][Node(b.outs[1]) + 1], Neg(b.outs[1])) x == MkXor(z[1], a.outs[1], o) IN MkPo(x[1], x[2])[1]
Exact == turn = "done" => OutValues(TheMiter)[1] = Diff(OutValues(a), OutValues(b), NWords(NPi))
Emit == [][turn' = "done" => PrintT(<<"PATH", ToJson(<<pa', pb'>>)>>)]_vars
=============================================================================
