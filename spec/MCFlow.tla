-------------------------------- MODULE MCFlow -------------------------------
(***************************************************************************)
(* Flow over a small universe: circuits of two inputs, and phases that may *)
(* show anything -- wrong mappings, wrong verdicts, phases out of order.   *)
(* What the obligations accept has the guarantees of the whole flow.       *)
(***************************************************************************)
EXTENDS Flow, TLC

VARIABLE shown              \* the netlist written at the end
mvars == <<fvars, shown>>

Aigs == {[ni |-> 2, ands |-> a, outs |-> <<o>>] : a \in {<<>>, <<<<2, 4>>>>, <<<<3, 4>>>>}, o \in {0, 1, 2, 5, 6, 7}}
Circuits == {g \in Aigs : Closed(g)}
LutOf(init, pins) == [k |-> Len(pins), pins |-> pins, out |-> "w", w |-> Pow2(Len(pins)), init |-> <<init>>]
Net(ins, l) == [ports |-> ins \o <<"z">>, ins |-> ins, outs |-> <<"z">>, wires |-> <<"w">>, luts |-> <<l>>, assigns |-> <<<<"z", "w">>>>]
Wire(ins, r) == [ports |-> ins \o <<"z">>, ins |-> ins, outs |-> <<"z">>, wires |-> <<>>, luts |-> <<>>, assigns |-> <<<<"z", r>>>>]
XY == <<"x", "y">>
Luts == {Net(i, LutOf(f, i)) : i \in {XY, <<"y", "x">>}, f \in {8, 7, 6, 2, 4, 11, 13}} \cup {Net(XY, LutOf(1, <<"x">>)), Net(XY, LutOf(1, <<"y">>)), Net(<<"x">>, LutOf(1, <<"x">>))}
        \cup {Wire(XY, r) : r \in {"x", "y", Zero, One}} \cup {[Wire(XY, "x") EXCEPT !.assigns = <<>>], [bad |-> 1]}
Gates == {[ports |-> XY \o <<"z">>, ins |-> XY, outs |-> <<"z">>, wires |-> <<>>,
           assigns |-> <<[lhs |-> "z", op |-> IF Len(t) = 1 THEN "" ELSE "&", rd |-> t, inv |-> v]>>] :
             t \in {<<"x">>, <<"y">>, XY, <<Zero>>}, v \in {<<0>>, <<1>>, <<0, 0>>, <<1, 0>>}}

Obs(p) == CASE p = "configure" -> {[op |-> p, debug |-> d, cutsize |-> k, folder |-> f] : d, f \in BOOLEAN, k \in {1, 2}}
            [] p = "load" -> {[op |-> p, aigs |-> s, stim |-> <<>>, inn |-> n, outn |-> <<"">>] :
                                 n \in {<<"", "">>, <<"x", "">>}, s \in {<<g>> : g \in Circuits} \cup {<<g, h>> : g, h \in {c \in Circuits : c.outs # <<0>>}}}
            [] p = "map" -> {[op |-> p, area |-> n, sizes |-> [i \in 1..k |-> IF i = j THEN n ELSE 0]] : n \in {0, 1}, j \in {1, 2}, k \in {1, 2}}
            [] p = "verify" -> {[op |-> p, said |-> v] : v \in {"equivalent", "unequivalent", "none"}}
            [] p = "download" -> {[op |-> p, lut |-> n, gate |-> g, aig |-> a] : n \in Luts, g \in Gates, a \in {c \in Circuits : c.outs \in {<<6>>, <<0>>}}}
            [] OTHER -> {[op |-> p]}
Next == \E p \in {"configure", "load", "map", "verify", "download", "end"} : pc # "done" /\ \E e \in Obs(p) :
            FlowDo(e) /\ shown' = IF p = "download" THEN e.lut ELSE shown
Spec == FInit /\ shown = [bad |-> 1] /\ [][Next]_mvars

Right == NetBehaviour(Compile(shown), ref.stim) = ref.beh
(* A run that ends has written a mapping of the circuit it was given.      *)
Delivered   == pc \in {"end", "done"} => Structure(shown) = {} /\ (ref.same => Right)
(* The verdict is about the netlist that was written.                      *)
VerdictTrue == pc \in {"end", "done"} /\ said # "none" => (said = "equivalent") = Right
AskedOnly   == (pc \in {"end", "done"} /\ cfg.debug) = (pc \in {"end", "done"} /\ said # "none")
Reported    == pc \in {"end", "done"} => rep.area = Len(shown.luts) /\ \A i \in 1..Len(shown.luts) : Len(shown.luts[i].pins) <= cfg.cutsize
(* Phases in order.                                                        *)
Rank(p) == CASE p = "configure" -> 1 [] p = "load" -> 2 [] p = "map" -> 3 [] p = "verify" -> 4 [] p = "download" -> 5 [] p = "end" -> 6 [] OTHER -> 7
Forward == [][Rank(pc') > Rank(pc) /\ (pc' = "download" /\ cfg.debug => pc = "verify")]_mvars
=============================================================================
