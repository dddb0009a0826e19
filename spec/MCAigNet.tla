------------------------------ MODULE MCAigNet ------------------------------
(***************************************************************************)
(* The interface explored exhaustively in a small scope with the reference *)
(* semantics; every reached network is sound and every transition of it    *)
(* (network, call) is emitted as a call sequence to be replayed in the     *)
(* real class.                                                             *)
(***************************************************************************)
EXTENDS AigNet, TLC, Json
CONSTANTS MaxPi, MaxGate, MaxPo, MaxSub, Wide
VARIABLES net, regs, path, nsub
(* regs: the literals the caller holds; arguments are register numbers     *)
mvars == <<net, regs, path, nsub>>
Vals == Values(net, Order(net).seq)
Arg(x) == NegIf(regs[Node(x) + 1], Neg(x))         \* x = 2*register + inverted
RegLits == 0..(2 * Len(regs) - 1)
Calls ==
    {<<"pi", <<>>>> : x \in {n \in {1} : Len(net.pis) < MaxPi}}
    \cup {<<"po", <<x>>>> : x \in {y \in RegLits : Len(net.outs) < MaxPo}}
    \cup {<<op, <<x, y>>>> : op \in IF Wide THEN {"and", "nand", "or", "nor", "lt", "le", "xor", "xnor"} ELSE {"and"}, x \in RegLits, y \in RegLits}
    \cup (IF Wide THEN {<<op, <<x, y, z>>>> : op \in {"ite", "maj", "xor3", "nary_and", "nary_or", "nary_xor"}, x \in RegLits, y \in RegLits, z \in RegLits} ELSE {})
Build(c) ==
    LET r == Make(net, c[1], [i \in 1..Len(c[2]) |-> Arg(c[2][i])]) IN
    /\ Cardinality(Gates(r[1])) <= MaxGate
    /\ net' = r[1]
    /\ regs' = IF c[1] = "po" \/ (\E i \in 1..Len(regs) : Node(regs[i]) = Node(r[2])) THEN regs ELSE Append(regs, r[2])
    /\ path' = Append(path, c) /\ UNCHANGED nsub
Subst ==
    /\ nsub < MaxSub
    /\ \E x \in 1..(Len(regs) - 1), y \in RegLits :
        LET sub == << <<Node(regs[x + 1]), Arg(y)>> >> IN
        /\ SubOk(net, sub)
        /\ net' = Rebuild(net, sub)
        /\ OutValues(net') = OutValues(ReplaceRefs(net, sub))
        /\ regs' = <<0>>       \* the reference renumbers; the caller starts over
        /\ path' = Append(path, <<"subst", <<2 * x, y>>>>) /\ nsub' = nsub + 1
MInit == net = Empty /\ regs = <<0>> /\ path = <<>> /\ nsub = 0
MNext == (\E c \in Calls : Build(c)) \/ Subst
MSpec == MInit /\ [][MNext]_mvars
View == <<net, nsub, IF path = <<>> THEN <<>> ELSE <<path[Len(path)], Len(path)>> >>
NetView == <<net, nsub>>
Bounded == nsub = MaxSub => Len(path) < 20
StopAfterSub == nsub = 0

Sound == Live(net) /\ Acyclic(net) /\ Proper(net) /\ Unique(net) /\ Forward(net) /\ Inputs(net)
Means == [][\/ nsub' # nsub
            \/ LET c == path'[Len(path')] IN
               c[1] \in Builds =>
               LET v == Values(net', Order(net').seq)
                   r == Make(net, c[1], [i \in 1..Len(c[2]) |-> Arg(c[2][i])])[2]
               IN  LitV(v, r) = Wanted(c[1], [i \in 1..Len(c[2]) |-> LitV(v, Arg(c[2][i]))], Zeros(net'))]_mvars
Keeps == [][nsub' = nsub => Extends(net, net')]_mvars
Subs == [][nsub' # nsub => Len(net'.outs) = Len(net.outs)]_mvars
Emit == [][PrintT(<<"PATH", ToJson(path')>>)]_mvars
=============================================================================
