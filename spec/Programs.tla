------------------------------ MODULE Programs ------------------------------
(***************************************************************************)
(* The standalone programs (rewrite, refactor, balance, compress,          *)
(* compress2) next to the shell.  A program reads a circuit, runs its      *)
(* script and reports the size and level of the circuit it read and of the *)
(* one it has; balance also writes the latter, refactor checks it.         *)
(*                                                                         *)
(* The scripts of balance and rewrite are scripts of the shell: at the     *)
(* moment the session has run the script, the program has to report the    *)
(* session's network.  The other two scripts have no counterpart there.    *)
(***************************************************************************)
EXTENDS IMap, TLC
VARIABLES first,            \* the network as read
          script,           \* what was run since
          told              \* program -> the values it reported after its script
pvars == <<svars, first, script, told>>

Script(e) == CASE e.name \in {"balance", "batch", "stdin"} -> [i \in 1..e.n |-> "balance"]
               [] e.name = "rewrite" -> <<"rewrite -z">>
               [] OTHER -> <<"none">>
Size(g) == <<Len(g.ands), Depth(g)>>
Word(e) == IF e.op = "rewrite" /\ e.args.z = 1 /\ Opt(e, "P", 10) = 10 /\ Opt(e, "C", 4) = 4 THEN "rewrite -z" ELSE e.op

WrittenObl(e) ==
    IF "ports" \notin DOMAIN e.post THEN {"program.format"}
    ELSE LET G == e.post
             s == Tag("program", "ports", VPortsOk(G)) \cup Tag("program", "driven", VDrivenOk(G))
                  \cup Tag("program", "reads", VReadsOk(G)) \cup Tag("program", "shape", VShapeOk(G))
         IN  IF s # {} THEN s
             ELSE LET C == VCompile(G) IN
                  IF C.cyclic \/ C.ni # first.ni \/ Len(C.outs) # Len(first.outs) THEN {"program.netlist"}
                  ELSE Tag("program", "func", VBehaviour(C, ref.stim) = ref.beh)
                       \cup Tag("program", "size", Len(e.post.wires) = e.after[1])
                       \cup Tag("program", "names", \A i \in 1..Len(ref.inn) : ref.inn[i] # "" => G.ins[i] = ref.inn[i])
                       \cup Tag("program", "names", \A i \in 1..Len(ref.outn) : ref.outn[i] # "" => G.outs[i] = ref.outn[i])

(* Two known defects of compress and compress2 (their sources may not be   *)
(* repaired here).  They rewrite the network they read in place, and then   *)
(* report it as the values before; e.inplace is what that rewriting makes   *)
(* of it.  And called as documented, with the file only, they abort.        *)
Compressing(e) == e.name \in {"compress", "compress2"}
KnownOnlyArg(e) == e.op = "program" /\ Compressing(e) /\ e.form = "documented" /\ e.resp.kind = "crash"
KnownInPlace(e) == /\ e.op = "program" /\ Compressing(e) /\ e.resp.kind # "crash"
                   /\ e.before # Size(first) /\ e.before = e.inplace
Known(e) == Tag("known", "onlyarg", ~KnownOnlyArg(e)) \cup Tag("known", "inplace", ~KnownInPlace(e))

PObl(e) ==
    IF e.op # "program" THEN IF e.op = "read_aiger" \/ e.resp.kind = "crash" THEN Obl(e) ELSE {}
    ELSE IF e.resp.kind = "crash" THEN Tag("program", "crash", KnownOnlyArg(e))
    ELSE Tag("program", "before", e.before = Size(first) \/ KnownInPlace(e))
         \cup Tag("program", "after", script = Script(e) => e.after = Size(cur))
         \cup Tag("program", "again", <<e.name, e.n>> \in DOMAIN told => told[<<e.name, e.n>>] = e.after)
         \cup Tag("program", "area", e.name = "refactor" => e.after[1] <= ReachSize(first))
         \cup Tag("program", "level", e.name = "balance" => e.after[2] <= Depth(first))
         \cup Tag("program", "verdict", e.name = "refactor" => e.verdict = "true")
         \cup (IF e.name = "balance" THEN WrittenObl(e) ELSE {})

PEffect(e) ==
    IF e.op = "program" /\ e.resp.kind = "crash" THEN UNCHANGED pvars
    ELSE IF e.op = "program"
    THEN told' = [p \in DOMAIN told \cup {<<e.name, e.n>>} |-> IF p = <<e.name, e.n>> THEN e.after ELSE told[p]] /\ UNCHANGED <<svars, first, script>>
    ELSE IF e.resp.kind = "crash" \/ Refused(e) THEN UNCHANGED pvars
    ELSE /\ Effect(e)
         /\ IF e.op = "read_aiger" THEN first' = e.post /\ script' = <<>> /\ told' = <<>>
            ELSE first' = first /\ script' = Append(script, Word(e)) /\ told' = told
PInit == SInit /\ first = NoAig /\ script = <<>> /\ told = <<>>
=============================================================================
