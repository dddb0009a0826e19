---------------------------- MODULE ProgramsTrace ----------------------------
(* Recorded runs of the standalone programs, and sessions, against Programs. *)
EXTENDS Programs, Json
T == JsonDeserialize("trace.json")
VARIABLES ep, l, dead
tvars == <<pvars, ep, l, dead>>
Event == T[ep][l + 1]
TInit == PInit /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ LET o == PObl(Event) IN
            IF o = {} THEN /\ PEffect(Event) /\ dead' = FALSE
                           /\ IF Known(Event) = {} THEN TRUE ELSE PrintT(<<"NOTE", ep, l + 1, Known(Event)>>)
            ELSE PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED pvars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
