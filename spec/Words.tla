-------------------------------- MODULE Words --------------------------------
(***************************************************************************)
(* Bit-parallel Boolean values.                                            *)
(*                                                                         *)
(* A Boolean function of n variables (or its restriction to a finite list  *)
(* of input assignments) is held as a sequence of WB-bit words; bit b of   *)
(* word w is the function's value under assignment number WB*w + b.  TLC's *)
(* integers are 32 bits wide, so WB = 16 keeps every operation exact.      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise

WB   == 16
FULL == 65535

NotW(x)    == FULL - x
AndW(x, y) == x & y
OrW(x, y)  == x | y
XorW(x, y) == x ^^ y

NotV(a)    == [i \in 1..Len(a) |-> FULL - a[i]]
AndV(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
XorV(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]
ConstV(n, b) == [i \in 1..n |-> IF b THEN FULL ELSE 0]

(* The first four variables inside one word.                               *)
BaseWord == <<43690, 52428, 61680, 65280>>

Pow2(n) == 2 ^ n

(* Words needed to enumerate all assignments of n variables.               *)
NWords(n) == IF n <= 4 THEN 1 ELSE Pow2(n - 4)

(* Word number w (from 0) of variable i (from 1) in the exhaustive         *)
(* enumeration of assignments.                                             *)
VarWord(i, w) == IF i <= 4 THEN BaseWord[i]
                 ELSE IF (w \div Pow2(i - 5)) % 2 = 1 THEN FULL ELSE 0

(* All assignments of n inputs: a sequence (one entry per word) of         *)
(* sequences (one entry per input).                                        *)
AllStimuli(n) == [w \in 1..NWords(n) |-> [i \in 1..n |-> VarWord(i, w - 1)]]

(* Value of bit b (from 0) of word x.                                      *)
BitOf(x, b) == (x \div Pow2(b)) % 2

MaxOf(a, b) == IF a >= b THEN a ELSE b
MinOf(a, b) == IF a <= b THEN a ELSE b
SeqMax(s)   == FoldLeft(MaxOf, 0, s)
SeqSum(s)   == FoldLeft(LAMBDA x, y : x + y, 0, s)
=============================================================================
