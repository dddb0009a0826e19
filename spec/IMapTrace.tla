------------------------------ MODULE IMapTrace ------------------------------
(***************************************************************************)
(* Recorded sessions of the real tool as behaviours of IMap.               *)
(* T is a sequence of episodes, an episode a sequence of observations.     *)
(* Every observation must be a step of IMap; one that is not is reported   *)
(* with the obligations it violates and ends its episode.                  *)
(***************************************************************************)
EXTENDS IMap, Json, TLC

T == JsonDeserialize("trace.json")

VARIABLES ep, l, dead
tvars == <<svars, ep, l, dead>>

TInit == SInit /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE

Event == T[ep][l + 1]

Accept == Do(Event) /\ dead' = FALSE
Reject == LET o == Obl(Event) IN
          o # {} /\ PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED svars

TNext == /\ l < Len(T[ep]) /\ ~dead
         /\ (Accept \/ Reject)
         /\ l' = l + 1 /\ ep' = ep

TSpec == TInit /\ [][TNext]_tvars
=============================================================================
