----------------------------- MODULE EquivTrace -----------------------------
(* Recorded equivalence checks and validator histories against Equiv.      *)
EXTENDS Equiv, TLC, Json
T == JsonDeserialize("trace.json")
VARIABLES net, pure, val, ep, l, dead
tvars == <<net, pure, val, ep, l, dead>>
Event == T[ep][l + 1]
TInit == net = Empty /\ pure = TRUE /\ val = "none" /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ LET o == IF ValLegal(Event, net, val) THEN ValObl(Event, net, pure) ELSE {"harness.illegal"} IN
            IF o = {} THEN dead' = FALSE /\ net' = (IF Event.op = "equiv" THEN net ELSE Net(Event.post)) /\ pure' = (pure /\ Event.op # "subst") /\ val' = ValAfter(Event, val)
            ELSE PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED <<net, pure, val>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
