------------------------------ MODULE MCMapping ------------------------------
(***************************************************************************)
(* Every history of views and cells over small AIGs: what a mapped network *)
(* means, that cells right one by one make the whole right, and that       *)
(* copies stay in step.                                                    *)
(***************************************************************************)
EXTENDS Mapping, Json
CONSTANTS MaxCalls, NNet
VARIABLES net, vw, st, path
vars == <<net, vw, st, path>>
P3 == AN!MkPi(AN!MkPi(AN!MkPi(AN!Empty)[1])[1])[1]
G(N, a, b) == AN!MkAnd(N, a, b)[1]
(* x = ab, y = x'c; x = ab, y = bc, z = xy'; x = ab, y = a'b', z = x'y' (xor) *)
Nets == << AN!MkPo(AN!MkPo(G(G(P3, 2, 4), 9, 6), 10)[1], 9)[1],
           AN!MkPo(G(G(G(P3, 2, 4), 4, 6), 8, 11), 13)[1],
           AN!MkPo(G(G(G(P3, 2, 4), 3, 5), 9, 11), 12)[1] >>
Cut(n) == {L \in {<<>>} \cup UNION {{s \in [1..k -> 1..(n - 1)] : \A i \in 1..(k - 1) : s[i] < s[i + 1]} : k \in 1..3} :
             Len(L) > 0 /\ ASet(L) \subseteq AN!ReachFrom(net, {n})}
FnOf(n, L) ==
    CHOOSE t \in 0..255 : LET m == [root |-> [i \in 1..AN!Size(net) |-> IF i = n + 1 THEN 1 ELSE 0], lv |-> [i \in 1..AN!Size(net) |-> IF i = n + 1 THEN L ELSE <<>>],
                                                  fn |-> [i \in 1..AN!Size(net) |-> IF i = n + 1 THEN <<Len(L), <<t>> >> ELSE <<0, <<0>> >>]] IN t < Pow2(Pow2(Len(L))) /\ Local(net, m, n)
(* A cell with its function, right or with one bit wrong: two calls. *)
Cell(v, n, L, bad) == <<[op |-> "add", v |-> v, n |-> n, l |-> L, tt |-> <<>>, k |-> 0],
                        [op |-> "setf", v |-> v, n |-> n, k |-> Len(L), tt |-> LET t == FnOf(n, L) IN <<IF bad THEN (IF t % 2 = 0 THEN t + 1 ELSE t - 1) ELSE t>>, l |-> <<>>]>>
Do(e) == st' = Stores(e, net, vw, st) /\ vw' = Names_(e, vw, st)
DoBoth(c) == LET s1 == Stores(c[1], net, vw, st) IN st' = Stores(c[2], net, vw, s1) /\ vw' = vw
Init == net \in {Nets[i] : i \in 1..NNet} /\ vw = <<1>> /\ st = <<MEmpty(net)>> /\ path = <<>>
Next == /\ Len(path) < MaxCalls /\ net' = net
        /\ \/ \E v \in 1..Len(vw), n \in AN!Gates(net), b \in BOOLEAN : \E L \in Cut(n) :
                 LET c == Cell(v, n, L, b) IN (Separates(net, Put(MEmpty(net), n + 1, 1, L), n) \/ b) /\ DoBoth(c) /\ path' = path \o <<c[1], c[2]>>
           \/ \E v \in 1..Len(vw), n \in Roots(st[vw[1]]) : LET e == [op |-> "rem", v |-> v, n |-> n, l |-> <<>>, tt |-> <<>>, k |-> 0] IN Do(e) /\ path' = Append(path, e)
           \/ \E v \in 1..Len(vw) : LET e == [op |-> "clear", v |-> v, n |-> 0, l |-> <<>>, tt |-> <<>>, k |-> 0] IN Do(e) /\ path' = Append(path, e)
           \/ \E o \in {"copy", "new"} : Len(vw) < 2 /\ LET e == [op |-> o, v |-> 1, n |-> 0, l |-> <<>>, tt |-> <<>>, k |-> 0] IN Do(e) /\ path' = Append(path, e)
Spec == Init /\ [][Next]_vars
NoPath == <<net, vw, st>>
(* cells right one by one: the mapped network is the AIG *)
Compose == \A i \in 1..Len(st) : (Shaped(net, st[i]) /\ ClosedAll(net, st[i]) /\ \A n \in Roots(st[i]) : Right(net, st[i], n)) => MOuts(net, st[i]) = AN!OutValues(net)
(* and what closes over all cells closes over the used ones *)
ClosedUsed == \A i \in 1..Len(st) : ClosedAll(net, st[i]) => Closed(net, st[i])
Emit == [][PrintT(<<"PATH", ToJson([net |-> net, path |-> path'])>>)]_vars
==============================================================================
