----------------------------- MODULE MCPrograms -----------------------------
(* Programs over a small universe: every session step and every report that satisfies its obligations. *)
EXTENDS Programs, MCIMap
Reports == {[op |-> "program", name |-> p, n |-> n, resp |-> [kind |-> "ok", v |-> <<>>, warn |-> FALSE], before |-> <<b, bl>>, after |-> <<a, al>>,
             verdict |-> v, post |-> [nofile |-> 1], file |-> "none"]
               : p \in {"refactor", "batch"}, n \in {1}, b \in 0..2, bl \in 0..2, a \in {0, 2}, al \in {0, 1}, v \in {"true"}}
CObs == ReadsOk_ \cup Plain("balance", {0}, Aigs) \cup Plain("rewrite", {[P |-> Unset, C |-> Unset, z |-> 1]}, Aigs)
CInit == PInit
CNext == \/ \E e \in CObs : (e.op = "read_aiger" => first = NoAig) /\ Obl(e) = {} /\ PEffect(e) /\ Len(script') <= 1
         \/ \E e \in Reports : first # NoAig /\ PObl(e) = {} /\ PEffect(e)
CSpec == CInit /\ [][CNext]_pvars
(* what was read stays known, and an agreed report is about an equivalent circuit *)
BeforeKept == first # NoAig => HasAig /\ Behaviour(first, ref.stim) = ref.beh
AfterSound == \A p \in DOMAIN told : p[1] = "refactor" => told[p][1] <= ReachSize(first)
Stays == [][told' # <<>> => \A p \in DOMAIN told : p \in DOMAIN told' /\ told'[p] = told[p]]_pvars
=============================================================================
