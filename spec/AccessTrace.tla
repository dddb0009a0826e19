----------------------------- MODULE AccessTrace -----------------------------
(* Recorded histories of reading networks. *)
EXTENDS Access, Json
T == JsonDeserialize("trace.json")
VARIABLES s, ep, l, dead
tvars == <<s, ep, l, dead>>
Event == T[ep][l + 1]
TInit == s = Start(0) /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ LET o == IF Event.op = "begin" THEN BeginObl(Event) ELSE IF Legal(s, Event) THEN AObl(s, Event) ELSE {"harness.illegal"} IN
            IF o = {} THEN dead' = FALSE /\ s' = (IF Event.op = "begin" THEN Begun(Event) ELSE After(s, Event))
            ELSE PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED s
TSpec == TInit /\ [][TNext]_tvars
===============================================================================
