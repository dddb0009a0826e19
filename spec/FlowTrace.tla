------------------------------ MODULE FlowTrace ------------------------------
(* Recorded runs of the packaged flow as behaviours of Flow.               *)
EXTENDS Flow, Json, TLC

T == JsonDeserialize("trace.json")
VARIABLES ep, l, dead
tvars == <<fvars, ep, l, dead>>
TInit == FInit /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
Event == T[ep][l + 1]
Accept == FlowDo(Event) /\ dead' = FALSE
Reject == LET o == FlowObl(Event) IN
          o # {} /\ PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED fvars
TNext == /\ l < Len(T[ep]) /\ ~dead /\ (Accept \/ Reject) /\ l' = l + 1 /\ ep' = ep
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
