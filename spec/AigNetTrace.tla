----------------------------- MODULE AigNetTrace -----------------------------
(* Recorded call histories of the real network class against AigNet.       *)
EXTENDS AigNet, TLC, Json
T == JsonDeserialize("trace.json")
VARIABLES net, pure, ep, l, dead
tvars == <<net, pure, ep, l, dead>>
Event == T[ep][l + 1]
TInit == net = Empty /\ pure = TRUE /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ LET o == IF Legal(Event, net) THEN Obl(Event, net, pure) ELSE {"harness.illegal"} IN
            IF o = {} THEN dead' = FALSE /\ net' = NetAfter(Event, net) /\ pure' = (pure /\ Event.op \notin {"subst", "substs"})
            ELSE PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED <<net, pure>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
