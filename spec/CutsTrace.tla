------------------------------ MODULE CutsTrace ------------------------------
(* Recorded cut-set histories, enumerations and cache histories.           *)
EXTENDS Cuts, Json
T == JsonDeserialize("trace.json")
VARIABLES st, cache, ep, l, dead
tvars == <<st, cache, ep, l, dead>>
Event == T[ep][l + 1]
Obl(e) == IF e.op = "enum" THEN EnumObl(e)
          ELSE IF e.op = "cache" THEN CacheObl(e, cache)
          ELSE IF e.op = "cnew" THEN {}
          ELSE IF SetLegal(e, st) THEN SetObl(e, st) ELSE {"harness.illegal"}
TInit == st = [cap |-> 1, s |-> <<>>] /\ cache = <<>> /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ LET o == Obl(Event) IN
            IF o = {} THEN /\ dead' = FALSE
                           /\ cache' = (IF Event.op = "cnew" THEN <<>> ELSE IF Event.op = "cache" THEN CacheAfter(Event, cache) ELSE cache)
                           /\ st' = (IF Event.op \in {"enum", "cache", "cnew"} THEN st ELSE SetAfter(Event, st))
            ELSE PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED <<st, cache>>
TSpec == TInit /\ [][TNext]_tvars
==============================================================================
