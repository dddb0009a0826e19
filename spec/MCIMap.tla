-------------------------------- MODULE MCIMap --------------------------------
(***************************************************************************)
(* IMap over a small universe of circuits, mappings and command lines:     *)
(* every observation of the universe is tried in every state, and those    *)
(* that satisfy their obligations are taken.                               *)
(***************************************************************************)
EXTENDS IMap, TLC

CONSTANT Small              \* BOOLEAN: the smaller universe

Gates == {<<>>, <<<<2, 4>>>>, <<<<2, 5>>>>, <<<<2, 4>>, <<2, 6>>>>, <<<<2, 4>>, <<2, 4>>>>, <<<<2, 4>>, <<3, 5>>>>,
          <<<<2, 5>>, <<3, 4>>, <<7, 9>>>>, <<<<2, 4>>, <<3, 5>>, <<7, 9>>>>, <<<<0, 2>>>>}
Outs(A) == IF A = <<>> THEN {<<2>>, <<1>>}
           ELSE {<<2 * (2 + Len(A))>>, <<2 * (2 + Len(A)) + 1>>}
Big  == {[ni |-> 2, ands |-> A, outs |-> o] : A \in Gates, o \in {<<2>>, <<1>>, <<6>>, <<7>>, <<8>>, <<10>>, <<11>>}}
Aigs == {g \in Big : g.outs \in Outs(g.ands)}
        \cup (IF Small THEN {} ELSE {g \in Big : Closed(g)})

LutOf(init, pins) == [k |-> Len(pins), pins |-> pins, out |-> "w", w |-> Pow2(Len(pins)), init |-> <<init>>]
Net(l) == [ports |-> <<"x", "y", "z">>, ins |-> <<"x", "y">>, outs |-> <<"z">>, wires |-> <<"w">>,
           luts |-> <<l>>, assigns |-> <<<<"z", "w">>>>]
Netlists == {Net(LutOf(f, <<"x", "y">>)) : f \in {8, 7, 6, 9}}
            \cup {[ports |-> <<"x", "y", "z">>, ins |-> <<"x", "y">>, outs |-> <<"z">>, wires |-> <<>>,
                   luts |-> <<>>, assigns |-> <<<<"z", r>>>>] : r \in {"x", One}}

Answers == {[kind |-> k, v |-> <<>>, warn |-> k = "warn"] : k \in {"ok", "warn"}}
N2 == <<"", "">>
Reads == {[op |-> "read_aiger", args |-> 0, resp |-> a, file |-> "none", post |-> p, valid |-> v, aig |-> g, stim |-> <<>>,
           inn |-> N2, outn |-> <<"">>] : a \in Answers, g \in Aigs, p \in Aigs, v \in BOOLEAN}
ReadsOk_ == {e \in Reads : e.post = Canonical(e.aig) \/ (~e.valid /\ e.post = e.aig)}
Plain(op, args, posts) == {[op |-> op, args |-> a, resp |-> r, file |-> "none", post |-> p] : a \in args, r \in Answers, p \in posts}
HArgs == {[a |-> a, c |-> c, s |-> s, r |-> r] : a \in {0, 1}, c \in {0, 1}, s \in {1}, r \in {Unset, 0, 1, 5}}
Hists == {[op |-> "history", args |-> a, resp |-> [kind |-> "size", v |-> <<n>>, warn |-> w], file |-> "none", post |-> NoAig]
            : a \in HArgs, n \in 0..HistMax, w \in BOOLEAN}

RwArgs == {[P |-> p, C |-> Unset] : p \in {Unset, 5}}
MapArgs == {[P |-> Unset, C |-> c, G |-> Unset, L |-> Unset, t |-> t] : c \in {2, 9}, t \in {0, 1}}

Obs == UNION {ReadsOk_, Hists, Plain("rewrite", RwArgs, Aigs), Plain("balance", {0}, Aigs), Plain("cleanup", {0}, Aigs),
              Plain("map_fpga", MapArgs, Netlists),
              Plain("slot", {[i |-> 0]}, Aigs)}

Next == \E e \in Obs : Do(e)
Spec == SInit /\ [][Next]_svars

(* Consequences that involve steps. *)
ReadResets  == [][ref' # ref => hist' = <<>> /\ lut' = NoLut]_svars
OnlyOne     == [][hist' # <<>> /\ lut' # NoLut => Cardinality({x \in {1, 2, 3} :
                   CASE x = 1 -> cur' # cur [] x = 2 -> hist' # hist [] x = 3 -> lut' # lut}) <= 1]_svars
HistoryGrows == [][\/ Len(hist') <= 1
                   \/ Len(hist') \in Len(hist)..(Len(hist) + 1)]_svars
KeepsEarlier == [][hist' # hist /\ hist' # <<>> => Cardinality({i \in 1..Len(hist) : hist'[i] # hist[i]}) <= 1]_svars
NeverGone   == [][HasAig => cur' # NoAig]_svars
(* An optimised circuit stays equivalent to what was read, however the     *)
(* commands are combined.                                                  *)
Wf == HasAig => Closed(cur)
=============================================================================
