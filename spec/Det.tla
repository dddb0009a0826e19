--------------------------------- MODULE Det ---------------------------------
(***************************************************************************)
(* The session machine over terms.  A network is the term of the commands  *)
(* that made it: the circuit that was read and the effective optimisation  *)
(* commands since, with their effective options.  A mapping is the term of *)
(* the network that was mapped, the options and, when choices are merged,  *)
(* the recorded networks.  Nothing else - earlier sessions, circuits read  *)
(* before, refused commands, printing, writing, options of earlier         *)
(* commands - occurs in a term.                                            *)
(*                                                                         *)
(* The tool's results have to be a function of the terms: memo collects    *)
(* the first observation of each term, and every later one has to agree.   *)
(***************************************************************************)
EXTENDS IMap, TLC

VARIABLE memo
dvars == <<svars, memo>>

Given(e, o, d) == Opt(e, o, d)
Eff(e) ==
    CASE e.op = "rewrite"  -> <<"rewrite", Given(e, "P", 10), Given(e, "C", 4), e.args.l, e.args.z>>
      [] e.op = "refactor" -> <<"refactor", Given(e, "I", 10), Given(e, "C", 16), e.args.l, e.args.z>>
      [] e.op = "lut_opt"  -> <<"lut_opt", Given(e, "P", 10), Given(e, "C", 6), Given(e, "G", 1), Given(e, "L", 2), e.args.z>>
      [] e.op = "map_fpga" -> <<"map_fpga", Given(e, "P", 10), Given(e, "C", 6), Given(e, "G", 1), Given(e, "L", 2), Given(e, "t", 0)>>
      [] OTHER -> <<e.op>>

NetOps == {"rewrite", "refactor", "balance", "lut_opt", "cleanup"}
WriteOps == {"write_aiger", "write_fpga", "write_primary", "write_dot", "print_stats", "slot"}

(* What an observing command shows. *)
Term(e) ==
    CASE e.op \in {"write_aiger", "write_primary"} -> <<e.op, cur>>
      [] e.op = "write_fpga" -> <<e.op, lut>>
      [] e.op \in {"write_dot", "print_stats"} -> <<e.op, IF Opt(e, "t", 0) = 0 THEN cur ELSE lut>>
      [] e.op = "slot" -> <<"write_aiger", hist[e.args.i + 1]>>
Shows(e) == /\ e.op \in WriteOps
            /\ IF e.op = "slot" THEN e.args.i < Len(hist) ELSE Enabled_(e)

DObl(e) ==
    IF e.resp.kind = "crash" THEN {e.op \o ".crash"}
    ELSE IF e.op = "start" THEN {}
    ELSE IF Refused(e) THEN RefusedObl(e)
    ELSE IF e.op = "read_aiger" THEN Tag(e.op, "refuse", e.resp.kind = "ok")
    ELSE IF e.op = "history" THEN HistObl(e)
    ELSE IF Shows(e) THEN Tag(e.op, "differs", Term(e) \in DOMAIN memo => memo[Term(e)] = e.obs)
    ELSE {}

DEffect(e) ==
    IF e.op = "start" THEN cur' = NoAig /\ hist' = <<>> /\ lut' = NoLut /\ UNCHANGED <<ref, memo>>
    ELSE IF e.resp.kind = "crash" \/ Refused(e) THEN UNCHANGED dvars
    ELSE CASE e.op = "read_aiger" -> /\ cur' = [id |-> e.id, by |-> <<>>] /\ hist' = <<>> /\ lut' = NoLut
                                     /\ UNCHANGED <<ref, memo>>
           [] e.op \in NetOps -> cur' = [cur EXCEPT !.by = Append(@, Eff(e))] /\ UNCHANGED <<hist, lut, ref, memo>>
           [] e.op = "map_fpga" -> /\ lut' = [net |-> cur, by |-> Eff(e), hist |-> IF Opt(e, "t", 0) = 1 THEN hist ELSE <<>>]
                                   /\ UNCHANGED <<cur, hist, ref, memo>>
           [] e.op = "history" -> hist' = HistAfter(e) /\ UNCHANGED <<cur, lut, ref, memo>>
           [] Shows(e) -> /\ memo' = [t \in DOMAIN memo \cup {Term(e)} |-> IF t \in DOMAIN memo THEN memo[t] ELSE e.obs]
                          /\ UNCHANGED svars
           [] OTHER -> UNCHANGED dvars

DInit == SInit /\ memo = <<>>
DDo(e) == DObl(e) = {} /\ DEffect(e)
=============================================================================
