-------------------------------- MODULE IMap --------------------------------
(***************************************************************************)
(* One session of the iMap tool.                                           *)
(*                                                                         *)
(* The state is what the user can rely on: the current AIG, the recorded   *)
(* history, the last mapping, the functions of the circuit that was read   *)
(* and its port names.  Every command line is one action, parameterised by *)
(* the observation e of one execution: the options that were given, the    *)
(* kind of answer and the resulting network.  Obl(e) is the set of the     *)
(* obligations the observation violates in the current state; the command  *)
(* may do exactly the steps with Obl(e) = {}.                              *)
(*                                                                         *)
(* The optimisation commands are specified by what they must preserve, not *)
(* by the result they compute: any e.post related to cur in the right way  *)
(* is allowed.                                                             *)
(***************************************************************************)
EXTENDS Netlist, Integers

CONSTANT HistMax            \* number of history slots (5)

VARIABLES cur,    \* current AIG or NoAig
          hist,   \* recorded AIGs
          lut,    \* last mapping or NoLut
          ref     \* [stim, beh, ni, no, inn, outn]: the circuit that was read

svars == <<cur, hist, lut, ref>>

NoAig == [ni |-> -1, ands |-> <<>>, outs |-> <<>>]
NoLut == [none |-> TRUE]
NoRef == [stim |-> <<>>, beh |-> <<>>, ni |-> -1, no |-> 0, inn |-> <<>>, outn |-> <<>>]

HasAig == cur # NoAig
HasLut == lut # NoLut

SInit == cur = NoAig /\ hist = <<>> /\ lut = NoLut /\ ref = NoRef

(***************************************************************************)
(* Options: value given on the command line or the documented default.     *)
(* An option that was not given is recorded as -999.                       *)
(***************************************************************************)
Unset == -999
Opt(e, name, default) == IF e.args[name] = Unset THEN default ELSE e.args[name]

InRange(e) ==
    CASE e.op = "rewrite"  -> Opt(e, "P", 10) \in 6..20 /\ Opt(e, "C", 4) \in 2..4
      [] e.op = "refactor" -> Opt(e, "I", 10) <= 12 /\ Opt(e, "C", 16) <= 20
      [] e.op = "lut_opt"  -> /\ Opt(e, "P", 10) \in 6..20 /\ Opt(e, "C", 6) \in 2..6
                              /\ Opt(e, "G", 1) \in 1..2 /\ Opt(e, "L", 2) \in 1..3
      [] e.op = "map_fpga" -> /\ Opt(e, "P", 10) \in 6..20 /\ Opt(e, "C", 6) \in 2..6
                              /\ Opt(e, "G", 1) \in 1..2 /\ Opt(e, "L", 2) \in 1..3
                              /\ Opt(e, "t", 0) \in 0..1
      [] OTHER -> TRUE

(* The command is carried out (rather than refused with a diagnostic).     *)
Enabled_(e) ==
    CASE e.op = "read_aiger" -> e.valid
      [] e.op \in {"rewrite", "refactor", "balance", "lut_opt", "cleanup",
                   "map_fpga", "history", "write_aiger"} -> HasAig /\ InRange(e)
      [] e.op = "write_fpga" -> HasLut
      [] e.op \in {"write_primary", "write_dot", "print_stats"} ->
             LET t == Opt(e, "t", 0) IN
             IF t = 0 THEN HasAig
             ELSE IF t = 1 /\ e.op # "write_primary" THEN HasLut ELSE FALSE
      [] e.op = "bogus" -> FALSE      \* no such command or option, or a malformed value
      [] OTHER -> TRUE

Tag(op, name, ok) == IF ok THEN {} ELSE {op \o "." \o name}

(***************************************************************************)
(* Obligations on a network that results from optimising cur.              *)
(***************************************************************************)
(* Input assignments on which the functions are compared: all of them,     *)
(* unless the observation of read_aiger brings its own selection.          *)
Stim(e) == IF e.stim = <<>> THEN AllStimuli(e.aig.ni) ELSE e.stim

SameFunctions(g) == ref.beh = Behaviour(g, ref.stim)

NetObl(e, g) ==
    IF ~Closed(g) THEN {e.op \o ".wf"}
    ELSE IF g.ni # cur.ni \/ Len(g.outs) # Len(cur.outs) THEN {e.op \o ".iface"}
    ELSE Tag(e.op, "func", SameFunctions(g)) \cup Tag(e.op, "wf", NoTrivial(g) /\ Strashed(g))

(* refactor and balance never grow the circuit that is actually used       *)
SizeObl(e, g) == IF Closed(g) THEN Tag(e.op, "area", Len(g.ands) <= ReachSize(cur)) ELSE {}
DepthObl(e, g) == IF Closed(g) THEN Tag(e.op, "depth", Depth(g) <= Depth(cur)) ELSE {}

(* cleanup: exactly the gates in the cones of the outputs, once each       *)
CleanObl(e, g) ==
    IF Closed(g) /\ SameInterface(g, cur)
    THEN Tag(e.op, "exact", NoDangling(g) /\ Isomorphic(Clean(cur), g)) ELSE {}

(***************************************************************************)
(* Obligations on a mapped netlist.                                        *)
(***************************************************************************)
StructObl(op, N) ==
    Tag(op, "ports", PortsOk(N)) \cup Tag(op, "driven", DrivenOk(N))
    \cup Tag(op, "reads", ReadsOk(N)) \cup Tag(op, "shape", ShapeOk(N))

MapObl(e, N) ==
    IF "ports" \notin DOMAIN N THEN {"map_fpga.none"}   \* no mapping was left behind
    ELSE LET s == StructObl("map_fpga", N) IN
    IF s # {} THEN s
    ELSE LET C == Compile(N) IN
         IF C.cyclic THEN {"map_fpga.cyclic"}
         ELSE IF C.ni # cur.ni \/ Len(C.outs) # Len(cur.outs) THEN {"map_fpga.iface"}
         ELSE Tag("map_fpga", "func", NetBehaviour(C, ref.stim) = ref.beh)
              \cup Tag("map_fpga", "kbound", KBound(N, Opt(e, "C", 6)))
              \cup (IF Opt(e, "t", 0) = 1 THEN {} ELSE
                    Tag("map_fpga", "depth", NetDepth(C) <= MaxOf(1, Depth(cur)))
                    \cup Tag("map_fpga", "area",
                             Len(N.luts) <= ReachSize(cur)
                                + Cardinality({cur.outs[j] : j \in {i \in 1..Len(cur.outs) : Compl(cur.outs[i]) = 1}})))

(***************************************************************************)
(* Port names: a name from the symbol table, or any other distinct name.   *)
(***************************************************************************)
NamesObl(N) ==
    Tag("write_fpga", "names",
        /\ Len(N.ins) = Len(ref.inn) /\ Len(N.outs) = Len(ref.outn)
        /\ \A i \in 1..Len(ref.inn) : ref.inn[i] # "" => N.ins[i] = ref.inn[i]
        /\ \A i \in 1..Len(ref.outn) : ref.outn[i] # "" => N.outs[i] = ref.outn[i])

(***************************************************************************)
(* Gate-level Verilog and DOT of the current networks.                     *)
(***************************************************************************)
PrimaryObl(G) ==
    IF "ports" \notin DOMAIN G THEN {"write_primary.format"}
    ELSE LET s == Tag("write_primary", "ports", VPortsOk(G)) \cup Tag("write_primary", "driven", VDrivenOk(G))
                  \cup Tag("write_primary", "reads", VReadsOk(G)) \cup Tag("write_primary", "shape", VShapeOk(G))
         IN  IF s # {} THEN s
             ELSE LET C == VCompile(G) IN
                  IF C.cyclic THEN {"write_primary.cyclic"}
                  ELSE IF C.ni # cur.ni \/ Len(C.outs) # Len(cur.outs) THEN {"write_primary.iface"}
                  ELSE Tag("write_primary", "func", VBehaviour(C, ref.stim) = Behaviour(cur, ref.stim))

DotObl(D, t) ==
    IF "nodes" \notin DOMAIN D THEN {"write_dot.format"}
    ELSE IF ~DotOk(D, IF t = 0 THEN 1 ELSE 2) THEN {"write_dot.graph"}
    ELSE IF t = 0
    THEN LET A == DotAig(D) IN
         IF ~A.ok THEN {"write_dot.edges"}
         ELSE Tag("write_dot", "same", Isomorphic(cur, A.aig) /\ Isomorphic(A.aig, cur))
    ELSE Tag("write_dot", "lutgraph", SameLutGraph(lut, D))

StatsOf(g)    == <<g.ni, Len(g.outs), Len(g.ands), Depth(g)>>
LutStatsOf(N) == LET C == Compile(N) IN <<Len(N.ins), Len(N.outs), Len(N.luts), NetDepth(C)>>

(***************************************************************************)
(* History                                                                 *)
(***************************************************************************)
AfterAdd(e, h) == IF e.args.a = 1 /\ Len(h) < HistMax THEN Append(h, cur) ELSE h
AfterReplace(e, h) == IF e.args.r \in 0..(Len(h) - 1) THEN [h EXCEPT ![e.args.r + 1] = cur] ELSE h
HistAfter(e) == IF e.args.c = 1 THEN <<>> ELSE AfterReplace(e, AfterAdd(e, hist))
HistRefuses(e) == \/ e.args.a = 1 /\ Len(hist) >= HistMax
                  \/ e.args.r # Unset /\ e.args.r # -1
                     /\ e.args.r \notin 0..(Len(AfterAdd(e, hist)) - 1)
HistObl(e) ==
    Tag("history", "size", e.args.s = 1 =>
            e.resp.kind = "size" /\ e.resp.v = <<Len(HistAfter(e))>>)
    \cup Tag("history", "refuse", HistRefuses(e) <=> e.resp.warn)

SameNet(g, h) == g = h \/ (Closed(g) /\ Closed(h) /\ SameInterface(g, h)
                           /\ Isomorphic(Clean(g), Clean(h)))

(***************************************************************************)
(* The commands.                                                           *)
(***************************************************************************)
Refused(e) == ~Enabled_(e)

RefusedObl(e) ==
    Tag(e.op, "diagnostic", e.resp.kind = "warn")
    \cup Tag(e.op, "nofile", e.file = "none")

CmdObl(e) ==
    CASE e.op = "read_aiger" ->
            Tag(e.op, "refuse", e.resp.kind = "ok") \cup
            (IF ~Closed(e.post) THEN {"read_aiger.wf"}
             ELSE IF ~SameInterface(e.aig, e.post) THEN {"read_aiger.iface"}
             ELSE Tag(e.op, "func", Behaviour(e.aig, Stim(e)) = Behaviour(e.post, Stim(e)))
                  \cup Tag(e.op, "size", ReachSize(e.post) <= ReachSize(e.aig)))
      [] e.op \in {"rewrite", "lut_opt"} -> NetObl(e, e.post)
      [] e.op = "refactor" -> NetObl(e, e.post) \cup SizeObl(e, e.post)
      [] e.op = "balance" -> NetObl(e, e.post) \cup SizeObl(e, e.post) \cup DepthObl(e, e.post)
      [] e.op = "cleanup" -> NetObl(e, e.post) \cup CleanObl(e, e.post)
      [] e.op = "map_fpga" ->
            Tag(e.op, "answer", e.resp.kind = (IF Opt(e, "t", 0) = 1
                    /\ \A i \in 1..Len(hist) : Len(hist[i].ands) = 0 THEN "warn" ELSE "ok"))
            \cup MapObl(e, e.post)
      [] e.op = "history" -> HistObl(e)
      [] e.op = "write_aiger" -> Tag(e.op, "same", e.post = cur)
      [] e.op = "write_fpga" ->
            IF e.post = lut THEN NamesObl(e.post) ELSE {"write_fpga.same"}
      [] e.op = "write_primary" -> PrimaryObl(e.post)
      [] e.op = "write_dot" -> DotObl(e.post, Opt(e, "t", 0))
      [] e.op = "print_stats" ->
            IF Opt(e, "t", 0) = 0
            THEN Tag(e.op, "aig", e.resp.kind = "stats" /\ e.resp.v = StatsOf(cur))
            ELSE Tag(e.op, "lut", e.resp.kind = "stats" /\ e.resp.v = LutStatsOf(lut))
      [] e.op = "slot" ->    \* observation of history slot e.args.i (from 0)
            Tag(e.op, "same", e.args.i < Len(hist) => SameNet(e.post, hist[e.args.i + 1]))
      [] e.op = "kept" ->    \* observation of everything after a refused command
            Tag(e.op, "aig", e.post = cur)
      [] OTHER -> {}

Obl(e) ==
    IF e.resp.kind = "crash" THEN {e.op \o ".crash"}
    ELSE IF Refused(e) THEN RefusedObl(e)
    ELSE CmdObl(e)

(* What a command leaves behind. *)
Effect(e) ==
    IF e.resp.kind = "crash" \/ Refused(e) THEN UNCHANGED svars
    ELSE CASE e.op = "read_aiger" ->
                /\ cur' = e.post /\ hist' = <<>> /\ lut' = NoLut
                /\ ref' = [stim |-> Stim(e), ni |-> e.aig.ni, no |-> Len(e.aig.outs),
                           beh |-> Behaviour(e.aig, Stim(e)), inn |-> e.inn, outn |-> e.outn]
           [] e.op \in {"rewrite", "refactor", "balance", "lut_opt", "cleanup"} ->
                cur' = e.post /\ UNCHANGED <<hist, lut, ref>>
           [] e.op = "map_fpga" -> lut' = e.post /\ UNCHANGED <<cur, hist, ref>>
           [] e.op = "history" -> hist' = HistAfter(e) /\ UNCHANGED <<cur, lut, ref>>
           [] OTHER -> UNCHANGED svars

Do(e) == Obl(e) = {} /\ Effect(e)

(***************************************************************************)
(* Consequences a user relies on (checked on the exhaustive model).        *)
(***************************************************************************)
SessionSound == HasAig => Behaviour(cur, ref.stim) = ref.beh
HistorySound == \A i \in 1..Len(hist) : hist[i].ni = cur.ni /\ Behaviour(hist[i], ref.stim) = ref.beh
MappingSound == HasLut => NetBehaviour(Compile(lut), ref.stim) = ref.beh
HistoryBounded == Len(hist) <= HistMax
NothingWithoutAig == ~HasAig => hist = <<>> /\ ~HasLut
=============================================================================
