------------------------------- MODULE MCViews -------------------------------
(***************************************************************************)
(* The depth view as a machine: levels computed when it is made, extended  *)
(* node by node.  In a small scope its incremental levels and depth always *)
(* equal the recomputed ones on what it knows; every transition is emitted.*)
(***************************************************************************)
EXTENDS Views, TLC, Json
CONSTANTS MaxPi, MaxGate, MaxPo, Pol, Params
OnePlain == << <<0, 0>> >>
EveryKind == << <<0, 0>>, <<1, 0>>, <<0, 1>>, <<1, 1>>, <<0, 2>>, <<1, 2>> >>
VARIABLES g, on, m, known, lv, dp, path
vars == <<g, on, m, known, lv, dp, path>>
Ns == GNodes(g.nf)
NGates == Cardinality({n \in Ns : GIn(g.nf, n) # <<>>})
Do(c) == path' = Append(path, c)
AddPi == /\ Len(g.pis) < MaxPi
         /\ g' = [g EXCEPT !.nf = Append(@, <<>>), !.ng = Append(@, <<>>), !.pis = Append(@, Len(g.nf))]
         /\ lv' = Append(lv, 0) /\ known' = (IF on THEN known \cup {Len(g.nf)} ELSE {}) /\ Do(<<"pi">>) /\ UNCHANGED <<on, m, dp>>
AddGate == /\ NGates < MaxGate
           /\ \E a, b \in Ns, p, q \in Pol :
                  /\ a < b /\ a # 0
                  /\ ~\E n \in Ns : GIn(g.nf, n) = <<a, b>> /\ g.ng[n + 1] = <<p, q>>
                  /\ g' = [g EXCEPT !.nf = Append(@, <<a, b>>), !.ng = Append(@, <<p, q>>)]
                  /\ lv' = Append(lv, LevelOf(g', m, lv, Len(g.nf)))
                  /\ known' = (IF on /\ {a, b} \subseteq known THEN known \cup {Len(g.nf)} ELSE known) /\ Do(<<"and", 2 * a + p, 2 * b + q>>)
           /\ UNCHANGED <<on, m, dp>>
AddPo == /\ Len(g.outs) < MaxPo
         /\ \E n \in Ns, p \in Pol : g' = [g EXCEPT !.outs = Append(@, n), !.og = Append(@, p)] /\ dp' = GMax({dp, lv[n + 1] + m.cc * p}) /\ Do(<<"po", 2 * n + p>>)
         /\ UNCHANGED <<on, m, known, lv>>
Compute(c) == LET t == VLevels(g, m') IN
    /\ lv' = [i \in 1..Len(lv) |-> IF (i - 1) \in KnownAt(g) THEN t[i] ELSE 0]
    /\ dp' = VDepth(g, m', t) /\ known' = KnownAt(g) /\ Do(c) /\ UNCHANGED g
MakeView == ~on /\ on' = TRUE /\ \E x \in 1..Len(Params) : m' = [cc |-> Params[x][1], cost |-> Params[x][2]] /\ Compute(<<"view">> \o Params[x])
Update == on /\ UNCHANGED on /\ UNCHANGED m /\ Compute(<<"vupdate">>)
Drop == on /\ on' = FALSE /\ known' = {} /\ Do(<<"vdrop">>) /\ UNCHANGED <<g, m, lv, dp>>
Init == g = [nf |-> << <<>> >>, consts |-> 1, pis |-> <<>>, outs |-> <<>>, ng |-> << <<>> >>, og |-> <<>>] /\ on = FALSE /\ m = PlainView /\ known = {} /\ lv = <<0>> /\ dp = 0 /\ path = <<>>
Next == AddPi \/ AddGate \/ AddPo \/ MakeView \/ Update \/ Drop
Spec == Init /\ [][Next]_vars
NoPath == <<g, on, m, known, lv, dp>>
Exact == on => LET t == VLevels(g, m) IN
    /\ \A n \in known : lv[n + 1] = t[n + 1]
    /\ VSet(g.outs) \subseteq known => dp = VDepth(g, m, t)
GrowIs == [][(on /\ on' /\ Len(g'.nf) > Len(g.nf)) => known' = Grow(g', known, Len(g.nf))]_vars
Emit == [][PrintT(<<"PATH", ToJson(path')>>)]_vars
=============================================================================
