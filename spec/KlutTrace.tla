------------------------------ MODULE KlutTrace ------------------------------
(* Recorded call histories of the real LUT network class against Klut.     *)
EXTENDS Klut, Json
T == JsonDeserialize("trace.json")
VARIABLES net, ep, l, dead
tvars == <<net, ep, l, dead>>
Event == T[ep][l + 1]
TInit == net = KEmpty /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ LET o == IF KLegal(Event, net) THEN KObl(Event, net) ELSE {"harness.illegal"} IN
            IF o = {} THEN dead' = FALSE /\ net' = KAfter(Event, net)
            ELSE PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED net
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
