----------------------------- MODULE ViewsTrace -----------------------------
(* Histories of calls made through or beside views of the real networks.   *)
EXTENDS Views, Integers, TLC, Json
T == JsonDeserialize("trace.json")
VARIABLES g, on, m, known, ep, l, dead
tvars == <<g, on, m, known, ep, l, dead>>
Event == T[ep][l + 1]
(* literals of AIGs become nodes                                           *)
GraphOf(e) ==
    LET P == e.post IN
    IF "dead" \in DOMAIN P
    THEN [nf |-> [i \in 1..Len(P.fi) |-> [k \in 1..Len(P.fi[i]) |-> P.fi[i][k] \div 2]], consts |-> 1, pis |-> e.cis, ris |-> e.ris, outs |-> [j \in 1..Len(P.outs) |-> P.outs[j] \div 2],
          ng |-> [i \in 1..Len(P.fi) |-> [k \in 1..Len(P.fi[i]) |-> P.fi[i][k] % 2]], og |-> [j \in 1..Len(P.outs) |-> P.outs[j] % 2]]
    ELSE [nf |-> P.fi, consts |-> 2, pis |-> e.cis, ris |-> e.ris, outs |-> P.outs,
          ng |-> [i \in 1..Len(P.fi) |-> [k \in 1..Len(P.fi[i]) |-> 0]], og |-> [j \in 1..Len(P.outs) |-> 0]]
NoGraph == [nf |-> << >>, consts |-> 0, pis |-> <<>>, ris |-> <<>>, outs |-> <<>>, ng |-> << >>, og |-> <<>>]
Edits == {"subst", "substs"}
Looks == {"view", "vcopy", "vupdate", "vdrop", "topo", "tkeep", "tupdate", "sim", "toklut", "toaig"}
TInit == g = NoGraph /\ on = FALSE /\ m = PlainView /\ known = {} /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
OnAfter(e) == IF e.op = "view" THEN TRUE ELSE IF e.op \in {"vdrop", "new"} THEN FALSE ELSE on
ParamsAfter(e) == IF e.op = "view" THEN (IF Len(e.args) = 2 THEN [cc |-> e.args[1], cost |-> e.args[2]] ELSE PlainView) ELSE m
KnownAfter(e, h) ==
    CASE e.op \in {"view", "vupdate"} -> KnownAt(h)
      [] e.op \in {"vdrop", "new"} -> {}
      [] e.op \in Edits -> {}                  \* levels are not maintained across edits
      [] OTHER -> IF on THEN Grow(h, known, Len(g.nf)) ELSE {}
After(e) == IF e.op = "cleanup" THEN g ELSE GraphOf(e)     \* that shows the copy
Judge(e, h) ==
    VTag(e.op, "keeps", e.op \in Looks => h = g)
    \cup VTag(e.op, "view", (e.on = 1) <=> OnAfter(e))
    \cup (IF OnAfter(e) /\ e.on = 1 THEN ShownObl(e.op, h, ParamsAfter(e), KnownAfter(e, h), e.lev, e.depth) ELSE {})
    \cup (IF e.op \in {"topo", "tkeep", "tupdate"} THEN TopoObl(e.op, h, e) ELSE {})
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ LET e == Event
                o == IF e.res = -2 THEN {e.op \o ".crash"}
                     ELSE LET h == After(e) IN IF GOrder(h.nf).stuck THEN {e.op \o ".cyclic"} ELSE Judge(e, h)
            IN  IF o = {}
                THEN LET h == After(e) IN dead' = FALSE /\ g' = h /\ on' = OnAfter(e) /\ m' = ParamsAfter(e) /\ known' = KnownAfter(e, h)
                ELSE PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED <<g, on, m, known>>
TSpec == TInit /\ [][TNext]_tvars
=============================================================================
