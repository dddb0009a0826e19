-------------------------------- MODULE MCCuts --------------------------------
(***************************************************************************)
(* The cut-set machine explored: cuts over Leaves, capacity Cap.  When     *)
(* cuts are only inserted if no stored cut dominates them (as enumeration  *)
(* does) a set that is never full holds exactly the minimal cuts seen.     *)
(* Every transition is emitted for replay.                                 *)
(***************************************************************************)
EXTENDS Cuts, Json
CONSTANTS Leaves, Cap, MaxCalls, MaxLen
VARIABLES s, seen, full, pure, n, path
vars == <<s, seen, full, pure, n, path>>
AllCuts == {c \in UNION {[1..k -> Leaves] : k \in 0..MaxLen} : Ascending(c)}
Do(c) == path' = Append(path, c) /\ n' = n + 1
X(c) == [c |-> c, d |-> n]
Ins == \E c \in AllCuts :
         LET k == Kept(s, c)
             (* lower bound, as the code places it; the relation Inserted is checked by the invariant *)
             i == 1 + Cardinality({j \in 1..Len(k) : Len(k[j].c) < Len(c)})
             t == SubSeq(At(k, i, X(c)), 1, MinOf(Cap, Len(k) + 1))
         IN  /\ Inserted(s, Cap, X(c), t) \/ ~Sorted(k)
             /\ s' = t /\ full' = (full \/ Len(k) = Cap) /\ seen' = seen \cup {CSet(c)}
             /\ pure' = (pure /\ \A j \in 1..Len(s) : ~Dom(s[j].c, c))
             /\ Do(<<"ins", c>>)
Rem == \E i \in 1..Len(s) : s' = Without(s, i) /\ pure' = FALSE /\ Do(<<"rem", i - 1>>) /\ UNCHANGED <<seen, full>>
Best == \E i \in 2..Len(s) : s' = Promoted(s, i) /\ pure' = FALSE /\ Do(<<"best", i - 1>>) /\ UNCHANGED <<seen, full>>
Limit == \E m \in 1..Cap : Len(s) > m /\ s' = SubSeq(s, 1, m) /\ pure' = FALSE /\ Do(<<"limit", m>>) /\ UNCHANGED <<seen, full>>
Init == s = <<>> /\ seen = {} /\ full = FALSE /\ pure = TRUE /\ n = 0 /\ path = <<>>
Next == n < MaxCalls /\ (Ins \/ Rem \/ Best \/ Limit)
Spec == Init /\ [][Next]_vars
NoPath == <<[i \in 1..Len(s) |-> s[i].c], seen, full, pure, n>>
(* In a pure history nothing dominates anything, and unless the set was    *)
(* full it holds the minimal cuts of all that were offered.                *)
Pure == pure => Antichain(s) /\ Sorted(s) /\ (~full => {CSet(s[i].c) : i \in 1..Len(s)} = Minimal(seen))
Bounded == Len(s) <= Cap
Emit == [][PrintT(<<"PATH", ToJson(path')>>)]_vars
==============================================================================
