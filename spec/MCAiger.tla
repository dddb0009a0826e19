------------------------------- MODULE MCAiger -------------------------------
(***************************************************************************)
(* Decode inverts Encode on a systematic family of circuits, including     *)
(* ones whose deltas need several bytes; corrupted headers are refused.    *)
(***************************************************************************)
EXTENDS Aiger, TLC
CONSTANT N
VARIABLES ni, ands, o
Init == ni \in {0, 1, 2, 3, 31, 32, 63, 64, 65, 200, 8192} /\ ands = <<>> /\ o \in 0..3
Lits(k) == {0, 1, 2, 2 * (ni + k) - 1, 2 * (ni + k) - 2, ni, ni + 1} \cap 0..(2 * (ni + k) - 1)
Next == /\ Len(ands) < N /\ UNCHANGED <<ni, o>>
        /\ \E x, y \in Lits(Len(ands) + 1) : x >= y /\ ands' = Append(ands, <<x, y>>)
Spec == Init /\ [][Next]_<<ni, ands, o>>
G == [ni |-> ni, ands |-> ands, outs |-> [j \in 1..o |-> (2 * (ni + Len(ands)) + 1) - (IF j > 2 * (ni + Len(ands)) + 1 THEN 0 ELSE j - 1)]]
RoundTrip == LET d == Decode(Encode(G)) IN d.ok /\ d.aig = G
Truncated == LET b == Encode(G) IN ands # <<>> => ~Decode(SubSeq(b, 1, Len(b) - 2)).ok
=============================================================================
