-------------------------------- MODULE Flow ---------------------------------
(***************************************************************************)
(* The packaged FPGA flow (flow_manager): configure, load a circuit (one   *)
(* file, or a folder with three variants of one circuit), synthesise       *)
(* structural choices and map them to LUTs, report the result, verify it   *)
(* when asked to, write it out.                                            *)
(*                                                                         *)
(* The state is what has been established so far; a step is one phase of   *)
(* one run, parameterised by what that run showed: e.op is the phase.      *)
(***************************************************************************)
EXTENDS Netlist, Integers

VARIABLES pc,     \* the next phase
          cfg,    \* [debug, cutsize, folder]
          ref,    \* [ni, no, stim, beh, inn, outn, same]: the circuit; same: all loaded variants have its functions
          rep,    \* [area, sizes]: what was reported
          said    \* the verdict: "none", "equivalent", "unequivalent"
fvars == <<pc, cfg, ref, rep, said>>

FInit == /\ pc = "configure" /\ cfg = [debug |-> FALSE, cutsize |-> 0, folder |-> FALSE]
         /\ ref = [ni |-> 0, no |-> 0, stim |-> <<>>, beh |-> <<>>, inn |-> <<>>, outn |-> <<>>, same |-> TRUE]
         /\ rep = [area |-> 0, sizes |-> <<>>] /\ said = "none"

(* The order of the phases.                                                *)
After(p, debug) == CASE p = "configure" -> "load"
                     [] p = "load" -> "map"
                     [] p = "map" -> IF debug THEN "verify" ELSE "download"
                     [] p = "verify" -> "download"
                     [] p = "download" -> "end"
                     [] OTHER -> "done"

FTag(name, ok) == IF ok THEN {} ELSE {"flow." \o name}

FStim(e) == IF e.stim = <<>> THEN AllStimuli(e.aigs[1].ni) ELSE e.stim
Structure(N) == FTag("ports", PortsOk(N)) \cup FTag("driven", DrivenOk(N)) \cup FTag("reads", ReadsOk(N)) \cup FTag("shape", ShapeOk(N))

SizeCount(N, k) == Cardinality({i \in 1..Len(N.luts) : N.luts[i].k = k})
FNames(N) == /\ \A i \in 1..Len(ref.inn) : ref.inn[i] # "" => N.ins[i] = ref.inn[i]
             /\ \A i \in 1..Len(ref.outn) : ref.outn[i] # "" => N.outs[i] = ref.outn[i]

(* Inverters at the outputs are LUTs of the written netlist.               *)
LutObl(N) ==
    IF "luts" \notin DOMAIN N THEN {"flow.lutfile"}
    ELSE LET s == Structure(N) IN IF s # {} THEN s
    ELSE LET C == Compile(N) IN
         IF C.cyclic THEN {"flow.cyclic"}
         ELSE IF C.ni # ref.ni \/ Len(C.outs) # ref.no THEN {"flow.iface"}
         ELSE LET good == NetBehaviour(C, ref.stim) = ref.beh IN
              FTag("func", ref.same => good)
              \cup FTag("verdict", said # "none" => (said = "equivalent") = good)
              \cup FTag("kbound", KBound(N, cfg.cutsize))
              \cup FTag("names", FNames(N))
              \cup FTag("area", rep.area = Len(N.luts))
              \cup FTag("sizes", \A k \in 1..Len(rep.sizes) : rep.sizes[k] = SizeCount(N, k))

(* The gate-level netlist and, after a verified folder run, the AIG show   *)
(* the network that was mapped.                                            *)
GateObl(G) ==
    IF "assigns" \notin DOMAIN G THEN {"flow.gatefile"}
    ELSE LET s == FTag("gports", VPortsOk(G)) \cup FTag("gdriven", VDrivenOk(G)) \cup FTag("greads", VReadsOk(G)) \cup FTag("gshape", VShapeOk(G)) IN
         IF s # {} THEN s
         ELSE LET C == VCompile(G) IN
              IF C.cyclic THEN {"flow.gcyclic"}
              ELSE IF C.ni # ref.ni \/ Len(C.outs) # ref.no THEN {"flow.giface"}
              ELSE FTag("gfunc", ref.same => VBehaviour(C, ref.stim) = ref.beh) \cup FTag("gnames", FNames(G))
AigObl(g) ==
    IF g.ni < 0 THEN {"flow.aigfile"}
    ELSE IF ~Closed(g) THEN {"flow.awf"}
    ELSE IF g.ni # ref.ni \/ Len(g.outs) # ref.no THEN {"flow.aiface"}
    ELSE FTag("afunc", ref.same => Behaviour(g, ref.stim) = ref.beh)

FlowObl(e) ==
    IF e.op = "crash" THEN {"flow.crash"}
    ELSE IF e.op # pc THEN {"flow.order"}
    ELSE CASE e.op = "verify" -> FTag("noverdict", e.said \in {"equivalent", "unequivalent"})
                                 \cup FTag("unverified", ref.same => e.said = "equivalent")
           [] e.op = "map" -> FTag("noreport", e.area >= 0 /\ Len(e.sizes) = cfg.cutsize)
           [] e.op = "download" -> LutObl(e.lut) \cup GateObl(e.gate) \cup (IF cfg.debug /\ cfg.folder THEN AigObl(e.aig) ELSE {})
           [] OTHER -> {}

FlowEffect(e) ==
    /\ pc' = After(e.op, cfg.debug \/ (e.op = "configure" /\ e.debug))
    /\ cfg' = IF e.op = "configure" THEN [debug |-> e.debug, cutsize |-> e.cutsize, folder |-> e.folder] ELSE cfg
    /\ ref' = IF e.op = "load"
              THEN LET s == FStim(e)
                       b == Behaviour(e.aigs[1], s)
                   IN  [ni |-> e.aigs[1].ni, no |-> Len(e.aigs[1].outs), stim |-> s, beh |-> b, inn |-> e.inn, outn |-> e.outn,
                        same |-> \A i \in 2..Len(e.aigs) : Behaviour(e.aigs[i], s) = b]
              ELSE ref
    /\ rep' = IF e.op = "map" THEN [area |-> e.area, sizes |-> e.sizes] ELSE rep
    /\ said' = IF e.op = "verify" THEN e.said ELSE said

FlowDo(e) == FlowObl(e) = {} /\ FlowEffect(e)
=============================================================================
