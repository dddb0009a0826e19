--------------------------------- MODULE Lut ---------------------------------
(***************************************************************************)
(* LUT netlists as written by the tool (the structural Verilog subset), as *)
(* values, and what they mean.                                             *)
(*                                                                         *)
(*  [ports, ins, outs, wires |-> sequences of names,                       *)
(*   luts    |-> sequence of [k, pins, out, w, init] where init is the     *)
(*               INIT constant as 16-bit words, least significant first,   *)
(*   assigns |-> sequence of <<lhs, rhs>>]                                 *)
(*                                                                         *)
(* Pin j (from 0) is bit j of the index into INIT.                         *)
(***************************************************************************)
EXTENDS Words, FiniteSets

Names(s) == {s[i] : i \in 1..Len(s)}
Distinct(s) == Cardinality(Names(s)) = Len(s)
Zero == "1'b0"
One  == "1'b1"

LutOuts(N) == [i \in 1..Len(N.luts) |-> N.luts[i].out]
Lhs(N)     == [i \in 1..Len(N.assigns) |-> N.assigns[i][1]]

(* Ports in order, every name declared once.                               *)
PortsOk(N) == N.ports = N.ins \o N.outs /\ Distinct(N.ins \o N.outs \o N.wires)

(* Every output and every wire driven exactly once, nothing else driven.   *)
DrivenOk(N) == /\ Distinct(LutOuts(N) \o Lhs(N))
               /\ Names(LutOuts(N) \o Lhs(N)) = Names(N.outs \o N.wires)

(* Only declared, readable nets are read.                                  *)
ReadsOk(N) ==
    LET rd == Names(N.ins) \cup Names(N.wires) IN
    /\ \A i \in 1..Len(N.luts) : Names(N.luts[i].pins) \subseteq rd
    /\ \A i \in 1..Len(N.assigns) : N.assigns[i][2] \in rd \cup Names(N.outs) \cup {Zero, One}

(* LUTn has n pins and a 2^n bit INIT that fits.                           *)
ShapeOk(N) ==
    \A i \in 1..Len(N.luts) : LET t == N.luts[i] IN
        /\ t.k = Len(t.pins) /\ t.k \in 1..6 /\ t.w = Pow2(t.k)
        /\ IF t.k < 4 THEN Len(t.init) = 1 /\ t.init[1] < Pow2(t.w)
                      ELSE Len(t.init) = t.w \div 16

KBound(N, K) == \A i \in 1..Len(N.luts) : Len(N.luts[i].pins) <= K

(***************************************************************************)
(* Levelisation: repeatedly place the LUTs all of whose pins are placed.   *)
(* Positions 1, 2 are the constants, then the inputs, then the LUTs.       *)
(***************************************************************************)
RECURSIVE Place(_, _, _)
Place(pos, prog, rest) ==
    LET ready == SelectSeq(rest, LAMBDA t : Names(t.pins) \subseteq DOMAIN pos) IN
    IF ready = <<>> THEN [pos |-> pos, prog |-> prog, stuck |-> rest # <<>>]
    ELSE LET base == Cardinality(DOMAIN pos)
             new  == [n \in Names([i \in 1..Len(ready) |-> ready[i].out]) |->
                        base + (CHOOSE i \in 1..Len(ready) : ready[i].out = n)]
         IN  Place([n \in DOMAIN pos \cup DOMAIN new |->
                        IF n \in DOMAIN new THEN new[n] ELSE pos[n]],
                   prog \o [i \in 1..Len(ready) |->
                        [p |-> [j \in 1..Len(ready[i].pins) |-> pos[ready[i].pins[j]]],
                         k |-> ready[i].k, init |-> ready[i].init]],
                   SelectSeq(rest, LAMBDA t : ~(Names(t.pins) \subseteq DOMAIN pos)))

(* Only meaningful on netlists satisfying PortsOk, DrivenOk and ReadsOk.   *)
Compile(N) ==
    LET p0 == [n \in {Zero, One} \cup Names(N.ins) |->
                 IF n = Zero THEN 1 ELSE IF n = One THEN 2
                 ELSE 2 + (CHOOSE i \in 1..Len(N.ins) : N.ins[i] = n)]
        c  == Place(p0, <<>>, N.luts)
        src(o) == N.assigns[CHOOSE i \in 1..Len(N.assigns) : N.assigns[i][1] = o][2]
    IN  [ni |-> Len(N.ins), prog |-> c.prog,
         cyclic |-> c.stuck \/ \E j \in 1..Len(N.outs) : src(N.outs[j]) \notin DOMAIN c.pos,
         outs |-> IF c.stuck THEN <<>>
                  ELSE [j \in 1..Len(N.outs) |->
                          IF src(N.outs[j]) \in DOMAIN c.pos THEN c.pos[src(N.outs[j])] ELSE 1]]

(* Bit i (from 0) of an INIT constant as a full word.                      *)
InitWord(init, i) == IF BitOf(init[(i \div 16) + 1], i % 16) = 1 THEN FULL ELSE 0

(* Multiplexer tree over the pins, pin 1 selecting at the leaves.          *)
Mux(v, p) == [i \in 1..(Len(v) \div 2) |-> (v[2 * i] & p) | (v[2 * i - 1] & (FULL - p))]
LutWord(k, init, pw) ==
    FoldLeft(Mux, [i \in 1..Pow2(k) |-> InitWord(init, i - 1)], pw)[1]

NetSim(C, pis) ==
    LET v == FoldLeft(LAMBDA acc, t :
                 Append(acc, LutWord(t.k, t.init, [j \in 1..Len(t.p) |-> acc[t.p[j]]])),
                 <<0, FULL>> \o pis, C.prog)
    IN  [j \in 1..Len(C.outs) |-> v[C.outs[j]]]

NetBehaviour(C, stim) == [w \in 1..Len(stim) |-> NetSim(C, stim[w])]

NetDepth(C) ==
    LET lv == FoldLeft(LAMBDA acc, t : Append(acc, 1 + SeqMax([j \in 1..Len(t.p) |-> acc[t.p[j]]])),
                       [i \in 1..(2 + C.ni) |-> 0], C.prog)
    IN  SeqMax([j \in 1..Len(C.outs) |-> lv[C.outs[j]]])
=============================================================================
