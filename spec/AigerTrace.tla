------------------------------ MODULE AigerTrace ------------------------------
(***************************************************************************)
(* Files read and written by the real tool, at the level of bytes.         *)
(* State: the circuit in the tool (as the bytes it last wrote) and the     *)
(* circuit and names of the last file it accepted.                         *)
(*  read  [file |-> bytes, warn |-> BOOLEAN, stim]                         *)
(*  write [file |-> bytes]                                                 *)
(*  ports [ins, outs |-> sequences of names (bytes)] of the mapped netlist *)
(*  back  a read of the bytes that were written last                       *)
(*  opt   a command that may change the structure, not the functions       *)
(***************************************************************************)
EXTENDS Aiger, Json, TLC

T == JsonDeserialize("trace.json")
VARIABLES ref,    \* what the session is about: decoded file, stimuli, behaviour
          lastw,  \* bytes written last
          fresh,  \* the tool holds exactly what `lastw' encodes
          ep, l, dead
vars == <<ref, lastw, fresh, ep, l, dead>>

None == [none |-> TRUE]
Tag(name, ok) == IF ok THEN {} ELSE {name}
Stim(e, g) == IF e.stim = <<>> THEN AllStimuli(g.ni) ELSE e.stim
Event == T[ep][l + 1]

ReadObl(e) ==
    IF e.crash THEN {"read.crash"}
    ELSE LET D == Decode(e.file) IN
         IF D.ok THEN Tag("read.refused", ~e.warn) ELSE Tag("read.accepted", e.warn)
AfterRead(e) ==
    LET D == Decode(e.file) IN
    IF ~D.ok THEN UNCHANGED <<ref, lastw, fresh>>
    ELSE /\ ref' = [aig |-> D.aig, inn |-> D.inn, outn |-> D.outn, stim |-> Stim(e, D.aig),
                    beh |-> Behaviour(D.aig, Stim(e, D.aig))]
         /\ lastw' = <<>> /\ fresh' = FALSE

WriteObl(e) ==
    IF e.crash THEN {"write.crash"}
    ELSE IF ref = None THEN Tag("write.nofile", e.file = <<>> /\ e.warn)
    ELSE LET D == Decode(e.file) IN
         IF ~D.ok THEN {"write.format"}
         ELSE IF ~SameInterface(ref.aig, D.aig) THEN {"write.iface"}
         ELSE Tag("write.func", Behaviour(D.aig, ref.stim) = ref.beh)
              \cup Tag("write.order", \A k \in 1..Len(D.aig.ands) : D.aig.ands[k][1] >= D.aig.ands[k][2])
              \cup Tag("write.wf", NoTrivial(D.aig) /\ Strashed(D.aig))
              \cup Tag("write.again", fresh => e.file = lastw)

(* Reading back what was written: the same number of gates on writing.     *)
BackObl(e) ==
    IF e.crash \/ e.warn THEN {"back.refused"}
    ELSE LET D == Decode(e.file)  W == Decode(lastw) IN
         IF ~D.ok \/ ~W.ok THEN {"back.format"}
         ELSE IF ~SameInterface(W.aig, D.aig) THEN {"back.iface"}
         ELSE Tag("back.func", Behaviour(D.aig, ref.stim) = ref.beh)
              \cup Tag("back.size", Len(D.aig.ands) = Len(W.aig.ands))
              \cup Tag("back.iso", Isomorphic(Clean(W.aig), Clean(D.aig)))

PortsObl(e) ==
    Tag("ports.count", Len(e.ins) = Len(ref.inn) /\ Len(e.outs) = Len(ref.outn))
    \cup (IF Len(e.ins) # Len(ref.inn) \/ Len(e.outs) # Len(ref.outn) THEN {} ELSE
          Tag("ports.names", /\ \A i \in 1..Len(e.ins) : ref.inn[i] # <<>> => e.ins[i] = ref.inn[i]
                             /\ \A i \in 1..Len(e.outs) : ref.outn[i] # <<>> => e.outs[i] = ref.outn[i]))
    \cup Tag("ports.distinct", LET a == e.ins \o e.outs IN Cardinality({a[i] : i \in 1..Len(a)}) = Len(a))

Obl(e) == CASE e.op = "read" -> ReadObl(e) [] e.op = "write" -> WriteObl(e)
            [] e.op = "back" -> BackObl(e) [] e.op = "ports" -> PortsObl(e) [] OTHER -> {}
Effect(e) ==
    CASE e.op = "read" -> AfterRead(e)
      [] e.op = "write" -> lastw' = e.file /\ fresh' = TRUE /\ UNCHANGED ref
      [] e.op = "opt" -> fresh' = FALSE /\ UNCHANGED <<ref, lastw>>
      [] e.op = "back" -> lastw' = e.file /\ fresh' = TRUE /\ UNCHANGED ref
      [] OTHER -> UNCHANGED <<ref, lastw, fresh>>

TInit == ref = None /\ lastw = <<>> /\ fresh = FALSE /\ ep \in 1..Len(T) /\ l = 0 /\ dead = FALSE
TNext == /\ l < Len(T[ep]) /\ ~dead /\ l' = l + 1 /\ ep' = ep
         /\ LET o == Obl(Event) IN
            \/ o = {} /\ Effect(Event) /\ dead' = FALSE
            \/ o # {} /\ PrintT(<<"FAIL", ep, l + 1, o>>) /\ dead' = TRUE /\ UNCHANGED <<ref, lastw, fresh>>
TSpec == TInit /\ [][TNext]_vars
=============================================================================
