------------------------------ MODULE DetTrace ------------------------------
(* Recorded sessions of the real tool, several per episode, against Det.   *)
EXTENDS Det, Json
T == JsonDeserialize("trace.json")
VARIABLES ep, l, dead
tvars == <<dvars, ep, l, dead>>
Event == T[ep][l + 1]
TInit == DInit /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ \/ DDo(Event) /\ dead' = FALSE
            \/ LET o == DObl(Event) IN o # {} /\ PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED dvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
