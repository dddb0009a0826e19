-------------------------------- MODULE Engine --------------------------------
(***************************************************************************)
(* The Python interface (ai_infra/imap_engine.py): another front end of    *)
(* the session machine over terms.  Every method of an engine denotes one  *)
(* command of the session; what is not given has the documented default,   *)
(* which is the shell's.  All engines of a process share one session.      *)
(* Besides, every engine keeps a list of command texts, which it writes to *)
(* its output file.                                                        *)
(*                                                                         *)
(* A call [m |-> method, given |-> [option |-> number], seen |-> what       *)
(* arrived at the tool] has to ask the tool for exactly the denoted command *)
(* and to leave what that command leaves: observations of sessions driven   *)
(* by engines and of sessions of the shell share one memo.                  *)
(***************************************************************************)
EXTENDS Det
VARIABLE seqs               \* engine -> the recorded texts
evars == <<dvars, seqs>>

O(long, short, default) == [long |-> long, short |-> short, default |-> default]
Cut == <<O("priority_size", "P", 10)>>
V == <<O("verbose", "v", 0)>>
Method ==
    [rewrite   |-> [op |-> "rewrite", opts |-> Cut \o <<O("cut_size", "C", 4), O("level_preserve", "l", 1), O("zero_gain", "z", 0)>> \o V],
     refactor  |-> [op |-> "refactor", opts |-> <<O("max_input_size", "I", 10), O("max_cone_size", "C", 16), O("level_preserve", "l", 1), O("zero_gain", "z", 0)>> \o V],
     balance   |-> [op |-> "balance", opts |-> V],
     lut_opt   |-> [op |-> "lut_opt", opts |-> Cut \o <<O("cut_size", "C", 6), O("global_area_iterations", "G", 1), O("local_area_iterations", "L", 2), O("zero_gain", "z", 0)>> \o V],
     map_fpga  |-> [op |-> "map_fpga", opts |-> Cut \o <<O("cut_size", "C", 6), O("global_area_iterations", "G", 1), O("local_area_iterations", "L", 2), O("type", "t", 0)>> \o V],
     history   |-> [op |-> "history", opts |-> <<O("clear", "c", 0), O("size", "s", 0), O("add", "a", 0), O("replace", "r", -1)>>],
     clean_up  |-> [op |-> "cleanup", opts |-> V],
     print_stats |-> [op |-> "print_stats", opts |-> <<O("type", "t", 0)>>],
     read      |-> [op |-> "read_aiger", opts |-> <<O("filename", "f", 1)>>]]     \* 1: the input file of this engine

Opts(m) == Method[m].opts
Takes(m, n) == \E i \in DOMAIN Opts(m) : Opts(m)[i].long = n
(* the options as the tool has them when `given' is what it was told *)
Told(m, given) == [s \in {Opts(m)[i].short : i \in DOMAIN Opts(m)} |->
    LET o == CHOOSE x \in {Opts(m)[i] : i \in DOMAIN Opts(m)} : x.short = s
    IN IF o.long \in DOMAIN given THEN given[o.long] ELSE o.default]
(* The session event a call denotes.  Keeping the levels is the default of the shell: its -l says nothing new. *)
NoL(e) == IF e.op \in {"rewrite", "refactor"} THEN [e EXCEPT !.args["l"] = 0] ELSE e
Denotes(e) == NoL([op |-> Method[e.m].op,
                   args |-> [s \in DOMAIN Told(e.m, e.given) |-> IF s = "r" /\ Told(e.m, e.given)[s] = -1 THEN Unset ELSE Told(e.m, e.given)[s]],
                   resp |-> e.resp, file |-> e.file, id |-> e.id, obs |-> e.obs, valid |-> e.valid])

(* What arrived at the tool is what was asked for.                          *)
SeenOk(e) ==
    /\ Len(e.seen) = 1
    /\ e.seen[1].name = Method[e.m].op
    /\ \A i \in DOMAIN e.seen[1].opts : Takes(e.m, e.seen[1].opts[i].n)
    /\ LET got == [n \in {e.seen[1].opts[i].n : i \in DOMAIN e.seen[1].opts} |->
                      (CHOOSE x \in {e.seen[1].opts[i] : i \in DOMAIN e.seen[1].opts} : x.n = n).v]
           want == Told(e.m, e.given)
           has == Told(e.m, got)
       IN \A s \in DOMAIN want : IF s = "l" THEN want[s] = 0 => ("level_preserve" \in DOMAIN got => got["level_preserve"] = 0)
                                 ELSE has[s] = want[s]

EObl(e) ==
    IF e.op = "call" THEN
        IF e.resp.kind = "crash" THEN {"call.crash"}
        ELSE Tag("call", "asked", SeenOk(e)) \cup DObl(Denotes(e))
    ELSE IF e.op = "add_sequence" THEN Tag(e.op, "crash", e.resp.kind # "crash")
    ELSE IF e.op = "write" THEN
        IF e.resp.kind = "crash" THEN {"write.crash"} ELSE Tag(e.op, "sequence", e.texts = seqs[e.eng])
    ELSE DObl(NoL(e))

EEffect(e) ==
    CASE e.op = "call" -> DEffect(Denotes(e)) /\ UNCHANGED seqs
      [] e.op = "add_sequence" -> seqs' = [seqs EXCEPT ![e.eng] = Append(@, e.text)] /\ UNCHANGED dvars
      [] e.op = "write" -> UNCHANGED evars
      [] e.op = "start" -> DEffect(e) /\ seqs' = [i \in DOMAIN seqs |-> <<>>]
      [] OTHER -> DEffect(NoL(e)) /\ UNCHANGED seqs

EInit == DInit /\ seqs = [i \in 1..2 |-> <<>>]
=============================================================================
