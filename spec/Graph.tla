-------------------------------- MODULE Graph --------------------------------
(***************************************************************************)
(* Directed graphs of nodes 0..n-1 given by their fanin sequences: order,  *)
(* longest distance, reachability.  Nodes without fanins are terminals.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets
GNodes(nf) == 0..(Len(nf) - 1)
GIn(nf, n) == nf[n + 1]
RECURSIVE GSched(_, _, _, _)
GSched(nf, done, seq, rest) ==
    LET ready == SelectSeq(rest, LAMBDA n : \A k \in 1..Len(GIn(nf, n)) : done[GIn(nf, n)[k] + 1]) IN
    IF ready = <<>> THEN [seq |-> seq, stuck |-> rest # <<>>]
    ELSE LET s == {ready[i] : i \in 1..Len(ready)} IN
         GSched(nf, [i \in 1..Len(done) |-> done[i] \/ (i - 1) \in s], seq \o ready, SelectSeq(rest, LAMBDA n : n \notin s))
(* Every node after its fanins; stuck iff there is a cycle.                *)
GOrder(nf) == GSched(nf, [i \in 1..Len(nf) |-> FALSE], <<>>, [i \in 1..Len(nf) |-> i - 1])
GMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
(* Longest distance from the terminals, as a sequence.                     *)
GLevels(nf) ==
    FoldLeft(LAMBDA lv, n : IF GIn(nf, n) = <<>> THEN lv
                            ELSE [lv EXCEPT ![n + 1] = 1 + GMax({lv[GIn(nf, n)[k] + 1] : k \in 1..Len(GIn(nf, n))})],
             [i \in 1..Len(nf) |-> 0], GOrder(nf).seq)
RECURSIVE GReach(_, _)
GReach(nf, s) == LET t == s \cup UNION {{GIn(nf, n)[k] : k \in 1..Len(GIn(nf, n))} : n \in s} IN IF t = s THEN s ELSE GReach(nf, t)
=============================================================================
