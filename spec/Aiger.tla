-------------------------------- MODULE Aiger --------------------------------
(***************************************************************************)
(* The binary AIGER format, at the level of bytes: which byte sequences    *)
(* are files of combinational circuits, and which circuit a file encodes.  *)
(***************************************************************************)
EXTENDS Aig, Integers

NL == 10   SP == 32
Digit(c) == c \in 48..57

(* Decimal number starting at position p: <<value, next position>>, value  *)
(* -1 if there is none.                                                    *)
RECURSIVE NumFrom(_, _, _)
NumFrom(b, p, v) == IF p <= Len(b) /\ Digit(b[p]) THEN NumFrom(b, p + 1, v * 10 + (b[p] - 48)) ELSE <<v, p>>
Num(b, p) == IF p <= Len(b) /\ Digit(b[p]) THEN NumFrom(b, p, 0) ELSE <<-1, p>>

(* Variable-length delta: seven bits per byte, least significant first.    *)
RECURSIVE Delta(_, _, _, _)
Delta(b, p, v, m) == IF p > Len(b) THEN <<-1, p>>
                     ELSE IF b[p] < 128 THEN <<v + b[p] * m, p + 1>>
                     ELSE Delta(b, p + 1, v + (b[p] - 128) * m, m * 128)

Bad(why) == [ok |-> FALSE, why |-> why]

(* "aig M I L O A" *)
Header(b) ==
    IF Len(b) < 4 \/ SubSeq(b, 1, 4) # <<97, 105, 103, SP>> THEN Bad("magic")
    ELSE LET n1 == Num(b, 5)  n2 == Num(b, n1[2] + 1)  n3 == Num(b, n2[2] + 1)
             n4 == Num(b, n3[2] + 1)  n5 == Num(b, n4[2] + 1)
         IN  IF -1 \in {n1[1], n2[1], n3[1], n4[1], n5[1]} THEN Bad("header")
             ELSE IF n5[2] > Len(b) \/ b[n5[2]] # NL THEN Bad("header end")
             ELSE IF n3[1] # 0 THEN Bad("latches")
             ELSE IF n1[1] # n2[1] + n5[1] THEN Bad("counts")
             ELSE [ok |-> TRUE, ni |-> n2[1], no |-> n4[1], na |-> n5[1], p |-> n5[2] + 1]

(* One output literal per line. *)
RECURSIVE OutLines(_, _, _, _)
OutLines(b, p, k, acc) ==
    IF k = 0 THEN <<acc, p>>
    ELSE LET n == Num(b, p) IN
         IF n[1] = -1 \/ n[2] > Len(b) \/ b[n[2]] # NL THEN <<acc, 0>>
         ELSE OutLines(b, n[2] + 1, k - 1, Append(acc, n[1]))

RECURSIVE Gates(_, _, _, _, _)
Gates(b, p, lhs, k, acc) ==
    IF k = 0 THEN <<acc, p>>
    ELSE LET d0 == Delta(b, p, 0, 1)
             d1 == IF d0[1] = -1 THEN d0 ELSE Delta(b, d0[2], 0, 1)
             r0 == lhs - d0[1]  r1 == r0 - d1[1]
         IN  IF d0[1] < 1 \/ d1[1] < 0 \/ r0 < 0 \/ r1 < 0 THEN <<acc, 0>>
             ELSE Gates(b, d1[2], lhs + 2, k - 1, Append(acc, <<r0, r1>>))

RECURSIVE LineEnd(_, _)
LineEnd(b, p) == IF p > Len(b) \/ b[p] = NL THEN p ELSE LineEnd(b, p + 1)

(* Symbol table: lines "i<k> name" and "o<k> name" up to a comment or the  *)
(* end of the file.                                                        *)
RECURSIVE Symbols(_, _, _, _)
Symbols(b, p, ins, outs) ==
    IF p > Len(b) \/ b[p] = 99 THEN [ok |-> TRUE, ins |-> ins, outs |-> outs]
    ELSE IF b[p] \notin {105, 111} THEN [ok |-> FALSE, ins |-> ins, outs |-> outs]
    ELSE LET n == Num(b, p + 1)
             q == LineEnd(b, p)
             name == SubSeq(b, n[2] + 1, q - 1)
         IN  IF n[1] = -1 \/ b[n[2]] # SP THEN [ok |-> FALSE, ins |-> ins, outs |-> outs]
             ELSE IF b[p] = 105
                  THEN IF n[1] >= Len(ins) THEN [ok |-> FALSE, ins |-> ins, outs |-> outs]
                       ELSE Symbols(b, q + 1, [ins EXCEPT ![n[1] + 1] = name], outs)
                  ELSE IF n[1] >= Len(outs) THEN [ok |-> FALSE, ins |-> ins, outs |-> outs]
                       ELSE Symbols(b, q + 1, ins, [outs EXCEPT ![n[1] + 1] = name])

(* The circuit and the port names (<<>> where there is none).              *)
Decode(b) ==
    LET h == Header(b) IN
    IF ~h.ok THEN h
    ELSE LET o == OutLines(b, h.p, h.no, <<>>)
             g == IF o[2] = 0 THEN o ELSE Gates(b, o[2], 2 * (h.ni + 1), h.na, <<>>)
         IN  IF o[2] = 0 THEN Bad("outputs")
             ELSE IF g[2] = 0 THEN Bad("gates")
             ELSE LET a == [ni |-> h.ni, ands |-> g[1], outs |-> o[1]]
                      s == Symbols(b, g[2], [i \in 1..h.ni |-> <<>>], [i \in 1..h.no |-> <<>>])
                  IN  IF ~s.ok THEN Bad("symbols")
                      ELSE IF ~Closed(a) THEN Bad("literals")
                      ELSE [ok |-> TRUE, aig |-> a, inn |-> s.ins, outn |-> s.outs]

(* Encoding, the inverse: used to show on the model that Decode undoes it. *)
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Digits(n \div 10), 48 + (n % 10))
RECURSIVE Code(_)
Code(n) == IF n < 128 THEN <<n>> ELSE <<128 + (n % 128)>> \o Code(n \div 128)
Encode(g) ==
    LET hi(p) == IF p[1] >= p[2] THEN p[1] ELSE p[2]
        lo(p) == IF p[1] >= p[2] THEN p[2] ELSE p[1]
        gate(k) == Code(2 * (g.ni + k) - hi(g.ands[k])) \o Code(hi(g.ands[k]) - lo(g.ands[k]))
        cat(f, n) == FoldLeft(LAMBDA a, k : a \o f[k], <<>>, [k \in 1..n |-> k])
    IN  <<97, 105, 103, SP>> \o Digits(g.ni + Len(g.ands)) \o <<SP>> \o Digits(g.ni) \o <<SP, 48, SP>>
        \o Digits(Len(g.outs)) \o <<SP>> \o Digits(Len(g.ands)) \o <<NL>>
        \o FoldLeft(LAMBDA a, o : a \o Digits(o) \o <<NL>>, <<>>, g.outs)
        \o FoldLeft(LAMBDA a, k : a \o gate(k), <<>>, [k \in 1..Len(g.ands) |-> k])
        \o <<99>>
=============================================================================
