---------------------------- MODULE MappingTrace ----------------------------
(* Recorded histories of mapping views. *)
EXTENDS Mapping, Json
T == JsonDeserialize("trace.json")
VARIABLES net, vw, st, ep, l, dead
tvars == <<net, vw, st, ep, l, dead>>
Event == T[ep][l + 1]
Cur == IF Event.op = "new" THEN MNone ELSE st[vw[Event.v]]
TInit == net = AN!Empty /\ vw = <<>> /\ st = <<>> /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ IF Event.op = "begin"
            THEN /\ net' = AN!Net(Event.post) /\ vw' = <<>> /\ st' = <<>>
                 /\ IF Event.res = -2 THEN PrintT(<<"FAIL", ep, l + 1, {"begin.crash"}>>) /\ dead' = TRUE ELSE dead' = FALSE
            ELSE LET o == IF MLegal(Event, net, Cur) THEN MObl(Event, net, vw, st) ELSE {"harness.illegal"} IN
                 IF o = {} THEN dead' = FALSE /\ net' = net /\ st' = Stores(Event, net, vw, st) /\ vw' = Names_(Event, vw, st)
                 ELSE PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED <<net, vw, st>>
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
