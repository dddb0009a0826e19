----------------------------- MODULE ResynTrace -----------------------------
(* Recorded resynthesis requests.                                          *)
EXTENDS Resyn, TLC, Json
T == JsonDeserialize("trace.json")
VARIABLES net, ep, l, dead
tvars == <<net, ep, l, dead>>
Event == T[ep][l + 1]
TInit == net = Empty /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ LET o == IF Event.res = -2 \/ RLegal(Event, net) THEN RObl(Event, net) ELSE {"harness.illegal"} IN
            IF o = {} THEN dead' = FALSE /\ net' = Net(Event.post)
            ELSE PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED net
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
