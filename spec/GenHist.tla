------------------------------- MODULE GenHist -------------------------------
(***************************************************************************)
(* The history commands of IMap over abstract circuits (version numbers):  *)
(* used to derive, for every transition of the history machine, a command  *)
(* sequence that takes it, and to generate random sessions.                *)
(***************************************************************************)
EXTENDS IMap, TLC, Json
CONSTANT MaxVer             \* versions
Rs == {Unset, -2, -1, 0, 1, 2, 3, 4, 5, 7}       \* replace indices that are tried
VARIABLES path, last

HCmds == {[op |-> "history", args |-> [a |-> a, c |-> c, s |-> s, r |-> r]] : a \in {0, 1}, c \in {0, 1}, s \in {0, 1}, r \in Rs}
Change == /\ cur < MaxVer /\ cur' = cur + 1 /\ hist' = hist
          /\ path' = Append(path, [op |-> "change"]) /\ last' = <<"change", Len(hist)>>
History(e) == /\ hist' = HistAfter(e) /\ cur' = cur
              /\ path' = Append(path, e) /\ last' = <<e.args, Len(hist)>>
GInit == cur = 1 /\ hist = <<>> /\ lut = NoLut /\ ref = NoRef /\ path = <<>> /\ last = <<>>
GNext == /\ (Change \/ \E e \in HCmds : History(e))
         /\ UNCHANGED <<lut, ref>>
GSpec == GInit /\ [][GNext]_<<svars, path, last>>

(* Exhaustive: one representative per (command, size before, size after).  *)
Seen == <<Len(hist), last>>
Emit == PrintT(<<"PATH", ToJson(path)>>)

(* Random walks: clear rarely, so that the history fills up.                 *)
SimCmds == {e \in HCmds : e.args.c = 1 => e.args.r = Unset /\ e.args.s = 0}
SimNext == (Change \/ \E e \in SimCmds : History(e)) /\ UNCHANGED <<lut, ref>>
SimSpec == GInit /\ [][SimNext]_<<svars, path, last>>
EmitLong == Len(path) = 18 => Emit
Short == Len(path) < 4

Sizes == Len(hist) \in 0..HistMax
Versions == \A i \in 1..Len(hist) : hist[i] \in 1..cur
(* A recorded slot is only ever overwritten by -r on that slot or cleared. *)
Stable == [][\/ hist' = <<>>
             \/ /\ Len(hist') >= Len(hist)
                /\ \A i \in 1..Len(hist) : hist'[i] = hist[i] \/ (hist'[i] = cur /\ last'[1].r = i - 1)]_<<svars, path, last>>
=============================================================================
