----------------------------- MODULE ChoiceTrace -----------------------------
(* Recorded merges, choice computations and class histories.               *)
EXTENDS Choice, Json
T == JsonDeserialize("trace.json")
VARIABLES net, eq, rep, ep, l, dead
tvars == <<net, eq, rep, ep, l, dead>>
Event == T[ep][l + 1]
Obl(e) ==
    CASE e.op = "cmiter" -> MiterObl(e)
      [] e.op = "choice" -> ChoiceObl(e)
      [] e.op = "cinit" -> KTag("cinit", "single", \A i \in 1..Len(e.net.fi) : e.eq[i] = -1 /\ e.rep[i] = i - 1)
      [] e.op = "setc" -> IF ChoiceLegal(net, eq, rep, e.args[1], e.args[2]) THEN SetcObl(e, net, eq, rep) ELSE {"harness.illegal"}
      [] e.op = "mux" -> MuxObl(e, net)
TInit == net = AN!Empty /\ eq = <<-1>> /\ rep = <<0>> /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ LET e == Event  o == Obl(e) IN
            IF o = {} THEN /\ dead' = FALSE
                           /\ net' = (IF e.op = "cinit" THEN AN!Net(e.net) ELSE net)
                           /\ eq' = (IF e.op \in {"cinit", "setc"} THEN e.eq ELSE eq)
                           /\ rep' = (IF e.op \in {"cinit", "setc"} THEN e.rep ELSE rep)
            ELSE PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED <<net, eq, rep>>
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
