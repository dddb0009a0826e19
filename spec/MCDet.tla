-------------------------------- MODULE MCDet --------------------------------
(***************************************************************************)
(* Non-interference of the session machine over terms, by self-            *)
(* composition: a session with the given commands, and the same session    *)
(* with refused commands, printing and foreign circuits in between, end in *)
(* the same terms.                                                         *)
(***************************************************************************)
EXTENDS Det
CONSTANT Len_
VARIABLES cur2, hist2, lut2, n      \* the second session
ok == [kind |-> "ok", v |-> <<>>, warn |-> FALSE]
wn == [kind |-> "warn", v |-> <<>>, warn |-> TRUE]
Ev(op, args, r) == [op |-> op, args |-> args, resp |-> r, file |-> "none", id |-> "g", obs |-> "x", valid |-> TRUE]
Main == {Ev("read_aiger", 0, ok), Ev("rewrite", [P |-> Unset, C |-> 3, l |-> 0, z |-> 0], ok), Ev("balance", 0, ok),
         Ev("map_fpga", [P |-> Unset, C |-> Unset, G |-> Unset, L |-> Unset, t |-> 1], ok),
         Ev("history", [a |-> 1, c |-> 0, s |-> 0, r |-> Unset], ok), Ev("history", [a |-> 0, c |-> 1, s |-> 0, r |-> Unset], ok)}
Noise == {Ev("rewrite", [P |-> 5, C |-> Unset, l |-> 0, z |-> 0], wn), Ev("bogus", 0, wn), Ev("print_stats", [t |-> 0], ok),
          Ev("write_aiger", 0, ok), Ev("history", [a |-> 0, c |-> 0, s |-> 0, r |-> 7], wn)}
X(e) == e.resp.kind # "crash"
First(e)  == DObl(e) = {} /\ DEffect(e)
(* the same step of the second session, with its own variables *)
S2 == INSTANCE Det WITH cur <- cur2, hist <- hist2, lut <- lut2
Both(e) == First(e) /\ S2!DObl(e) = {} /\ S2!DEffect(e)
MInit == DInit /\ cur2 = NoAig /\ hist2 = <<>> /\ lut2 = NoLut /\ n = 0
MNext == \/ n < Len_ /\ n' = n + 1 /\ \E e \in Main : Both(e)
         \/ n < Len_ /\ n' = n + 1 /\ (\E e \in Noise : S2!DObl(e) = {} /\ S2!DEffect(e)) /\ UNCHANGED <<cur, hist, lut>>
MSpec == MInit /\ [][MNext]_<<dvars, cur2, hist2, lut2, n>>
SameTerms == cur = cur2 /\ hist = hist2 /\ lut = lut2
=============================================================================
