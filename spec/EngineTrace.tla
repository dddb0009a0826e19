----------------------------- MODULE EngineTrace -----------------------------
(* Recorded sessions driven from Python, and their counterparts in the shell, against Engine. *)
EXTENDS Engine, Json
T == JsonDeserialize("trace.json")
VARIABLES ep, l, dead
tvars == <<evars, ep, l, dead>>
Event == T[ep][l + 1]
TInit == EInit /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ LET o == EObl(Event) IN
            IF o = {} THEN EEffect(Event) /\ dead' = FALSE
            ELSE PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED evars
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
