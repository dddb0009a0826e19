------------------------------- MODULE MCEngine -------------------------------
(***************************************************************************)
(* Sessions from Python next to the shell: the same commands typed in the   *)
(* shell, with every option spelled out or with the defaults left away,     *)
(* lead to the same terms, and so does playing the written sequence when    *)
(* every effective call was recorded in it.  Also the generator of call     *)
(* histories.                                                               *)
(***************************************************************************)
EXTENDS Engine, Json, SequencesExt
CONSTANT Len_
VARIABLES curB, histB, lutB,     \* the shell, defaults left away
          cmds,                  \* the texts recorded, as events of the shell
          path
ok == [kind |-> "ok", v |-> <<>>, warn |-> FALSE]
mvars == <<evars, curB, histB, lutB, cmds, path>>
Vals(o) == CASE o.short = "P" -> {6, 8, 20, 5} [] o.short = "C" /\ o.default = 16 -> {8, 20, 21} [] o.short = "C" -> {2, 3, 7} [] o.short = "I" -> {4, 12, 13}
             [] o.short = "G" -> {2, 0} [] o.short = "L" -> {1, 3, 4} [] o.short = "t" -> {1, 0, 5} [] o.short = "r" -> {0, 2, 9} [] o.short = "f" -> {} [] OTHER -> {1, 0}
Bare == [x \in {} |-> 0]
Single(m) == UNION {{(Opts(m)[i].long :> v) : v \in Vals(Opts(m)[i])} : i \in DOMAIN Opts(m)}
Givens(m) == {Bare} \cup Single(m) \cup {a @@ b : a \in Single(m), b \in Single(m)}
GivensMC(m) == {Bare} \cup Single(m)
(* the command typed with the defaults left away *)
Left(m, given) == LET w == Told(m, given) IN [s \in DOMAIN w |->
                     LET o == CHOOSE x \in {Opts(m)[i] : i \in DOMAIN Opts(m)} : x.short = s
                     IN IF w[s] = o.default THEN (IF s \in {"l", "z", "v", "a", "c", "s"} THEN 0 ELSE Unset) ELSE w[s]]
Typed(m, given) == NoL([op |-> Method[m].op, args |-> Left(m, given), resp |-> ok, file |-> "none", id |-> "g", obs |-> "", valid |-> TRUE])
Asked(m, given) == [op |-> "call", m |-> m, given |-> given, resp |-> ok, file |-> "none", id |-> "g", obs |-> "", valid |-> TRUE]
Shell == INSTANCE Det WITH cur <- curB, hist <- histB, lut <- lutB

CInit == EInit /\ curB = NoAig /\ histB = <<>> /\ lutB = NoLut /\ cmds = <<>> /\ path = <<>>
Both(m, g) == /\ DEffect(Denotes(Asked(m, g))) /\ UNCHANGED seqs
              /\ Shell!DEffect(Typed(m, g))
              /\ cmds' = Append(cmds, Typed(m, g))
CNext == Len(cmds) < Len_ /\ (\E m \in DOMAIN Method : \E g \in GivensMC(m) : Both(m, g)) /\ UNCHANGED path
CSpec == CInit /\ [][CNext]_mvars
SameSession == cur = curB /\ hist = histB /\ lut = lutB
(* A refused call is a refused command. *)
SameRefusals == \A m \in DOMAIN Method : \A g \in GivensMC(m) : Refused(Denotes(Asked(m, g))) <=> Shell!Refused(Typed(m, g))
(* Playing the texts from the start. *)
RECURSIVE Terms(_, _)
Terms(s, t) == IF s = <<>> THEN t ELSE
    LET e == Head(s) IN
    Terms(Tail(s), IF e.op = "read_aiger" THEN [id |-> e.id, by |-> <<>>]
                   ELSE IF t = NoAig \/ ~(e.op \in NetOps) THEN t
                   ELSE IF ~InRange(e) THEN t
                   ELSE [t EXCEPT !.by = Append(@, Eff(e))])
Replayed == cur = Terms(cmds, NoAig)

(* The generator: walks of calls, with recorded texts, as the driver plays them. *)
GStep == \/ \E m \in DOMAIN Method : path' = Append(path, [m |-> m, given |-> RandomElement(IF RandomElement(1..3) = 1 THEN {Bare} ELSE Givens(m))])
         \/ path' = Append(path, [m |-> "peek", given |-> Bare])
GNext == Len(path) < Len_ /\ GStep /\ UNCHANGED <<evars, curB, histB, lutB, cmds>>
GSpec == CInit /\ [][GNext]_mvars
EmitLong == Len(path) = Len_ => PrintT(<<"PATH", ToJson([i \in DOMAIN path |-> [m |-> path[i].m, n |-> SetToSeq(DOMAIN path[i].given), v |-> [k \in DOMAIN SetToSeq(DOMAIN path[i].given) |-> path[i].given[SetToSeq(DOMAIN path[i].given)[k]]]]])>>)
=============================================================================
