--------------------------------- MODULE Sop ---------------------------------
(***************************************************************************)
(* Sums of products and their algebraic factoring.                         *)
(*                                                                         *)
(* A literal is 2*v (variable v inverted) or 2*v + 1; a product is a set   *)
(* of literals, a cover a sequence of products.  The operators below are   *)
(* the steps of the factoring algorithm; MCSop checks, for every small     *)
(* cover, that each step keeps the identity it is used for, that it never  *)
(* gets stuck, and that the factored form is the cover.                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, FiniteSetsExt

Rng(s) == {s[i] : i \in 1..Len(s)}
LitCount(F) == FoldLeft(LAMBDA s, c : s + Cardinality(c), 0, F)
Occurs(F, l) == Len(SelectSeq(F, LAMBDA c : l \in c))
Common(F) == LET all == UNION Rng(F) IN {l \in all : \A i \in 1..Len(F) : l \in F[i]}
CubeFree(F) == Common(F) = {}
MakeFree(F) == LET m == Common(F) IN [i \in 1..Len(F) |-> F[i] \ m]

(* Meaning: a form is true under an assignment, a set of true literals.    *)
CoverAt(F, a) == \E i \in 1..Len(F) : F[i] \subseteq a
Assignments(n) == {{2 * v + (IF v \in S THEN 1 ELSE 0) : v \in 0..(n - 1)} : S \in SUBSET (0..(n - 1))}

(* Division by one product.                                                *)
ByCube(F, d) == [q |-> LET s == SelectSeq(F, LAMBDA c : d \subseteq c) IN [i \in 1..Len(s) |-> s[i] \ d],
                 r |-> SelectSeq(F, LAMBDA c : ~(d \subseteq c))]

(* Weak division: the quotient grows by products q with q u d in F for     *)
(* every d in D; products of F are used at most once.                      *)
RECURSIVE Weak(_, _, _, _, _)
Weak(F, D, i, used, Q) ==
    IF i > Len(F) THEN [q |-> Q, used |-> used]
    ELSE LET S == {k \in 1..Len(D) : D[k] \subseteq F[i]} IN
         IF i \in used \/ S = {} THEN Weak(F, D, i + 1, used, Q)
         ELSE LET k == Min(S)
                  q == F[i] \ D[k]
                  fits(d, j) == j \notin used /\ d \subseteq F[j] /\ q = F[j] \ d
                  others == {m \in 1..Len(D) : D[m] # D[k]}
              IN  IF \E m \in others : ~\E j \in 1..Len(F) : fits(D[m], j) THEN Weak(F, D, i + 1, used, Q)
                  ELSE LET mark(u, d) == LET J == {j \in 1..Len(F) : j \notin u /\ d \subseteq F[j] /\ q = F[j] \ d} IN IF J = {} THEN u ELSE u \cup {Min(J)}
                       IN  Weak(F, D, i + 1, FoldLeft(LAMBDA u, m : IF m \in others THEN mark(u, D[m]) ELSE u, used \cup {i}, [m \in 1..Len(D) |-> m]), Append(Q, q))
Divide(F, D) ==
    IF Len(D) = 1 THEN ByCube(F, D[1])
    ELSE LET w == Weak(F, D, 1, {}, <<>>) IN
         [q |-> w.q, r |-> LET s == SelectSeq([i \in 1..Len(F) |-> i], LAMBDA i : i \notin w.used) IN [i \in 1..Len(s) |-> F[s[i]]]]

(* What a division owes its user: F = D*Q + R, an identity of products.    *)
DivisionOk(F, D, Q, R) ==
    /\ Rng(R) \subseteq Rng(F)
    /\ \A i \in 1..Len(D) : \A j \in 1..Len(Q) : (D[i] \cup Q[j]) \in Rng(F) /\ D[i] \cap Q[j] = {}
    /\ Rng(F) = Rng(R) \cup {D[i] \cup Q[j] : i \in 1..Len(D), j \in 1..Len(Q)}

(* Kernels: K is a kernel-like divisor of F iff it is F's quotient by some *)
(* product.                                                                *)
Quotient(F, c) == {F[i] \ c : i \in {j \in 1..Len(F) : c \subseteq F[j]}}
Divides(F, K) == \E i \in 1..Len(F) : \E c \in SUBSET F[i] : Rng(K) = Quotient(F, c)

(* The best factorizing kernel: a depth first walk over the kernels.       *)
MostCube(F, l) == LET s == SelectSeq(F, LAMBDA c : l \in c) IN [c |-> Common(s), many |-> Len(s) > 1]
RECURSIVE Walk(_, _, _, _, _), WalkAll(_, _, _, _, _, _)
Walk(F, K, best, j, nl) ==      \* best: [k |-> cover, cost]; result: [fact, best]
    LET d == Divide(F, K)
        dc == LitCount(d.q) + LitCount(d.r)
        w == WalkAll(F, K, [fact |-> LitCount(K), best |-> best], j, nl, nl)
    IN  [fact |-> w.fact,
         best |-> IF w.best.k = <<>> \/ dc + w.fact < w.best.cost THEN [k |-> K, cost |-> dc + w.fact] ELSE w.best]
WalkAll(F, K, acc, i, nl, end) ==
    IF i >= end THEN acc
    ELSE LET m == MostCube(K, i) IN
         IF ~m.many \/ \E x \in m.c : x < i THEN WalkAll(F, K, acc, i + 1, nl, end)
         ELSE LET d == ByCube(K, m.c)
                  w == Walk(F, d.q, acc.best, i + 1, nl)
                  here == w.fact + Cardinality(m.c) + LitCount(d.r)
              IN  WalkAll(F, K, [fact |-> IF here < acc.fact THEN here ELSE acc.fact, best |-> w.best], i + 1, nl, end)
GoodDivisor(F, nl) ==
    IF Len(F) <= 1 \/ ~\E l \in 0..(nl - 1) : Occurs(F, l) > 1 THEN <<>>
    ELSE Walk(F, F, [k |-> <<>>, cost |-> 0], 0, nl).best.k

(* The factored form: ["lit", l], ["and"|"or", x, y], ["sop", F]; "stuck"  *)
(* marks a step whose assumption fails.                                    *)
MostLit(F, cube, nl) ==
    LET S == {l \in 0..(nl - 1) : l \in cube /\ Occurs(F, l) > 1} IN
    IF S = {} THEN nl ELSE LET m == Max({Occurs(F, l) : l \in S}) IN Min({l \in S : Occurs(F, l) = m})
Plus(x, R, y) == IF R = <<>> THEN x ELSE <<"or", x, y>>
RECURSIVE Factor(_, _), LitFactor(_, _, _)
Factor(F, nl) ==
    IF F = <<>> THEN <<"stuck">>
    ELSE LET D == GoodDivisor(F, nl) IN
    IF D = <<>> THEN <<"sop", F>>
    ELSE LET Q0 == Divide(F, D).q IN
    IF Q0 = <<>> THEN <<"stuck">>
    ELSE IF Len(Q0) = 1 THEN LitFactor(F, Q0[1], nl)
    ELSE LET Q == MakeFree(Q0)
             d == Divide(F, Q)
         IN  IF d.q # <<>> /\ CubeFree(d.q) THEN Plus(<<"and", Factor(d.q, nl), Factor(Q, nl)>>, d.r, Factor(d.r, nl))
             ELSE IF d.q = <<>> THEN <<"stuck">>
             ELSE LitFactor(F, Common(d.q), nl)
LitFactor(F, c, nl) ==
    LET l == MostLit(F, c, nl) IN
    IF l = nl THEN <<"stuck">>
    ELSE LET d == ByCube(F, {l}) IN Plus(<<"and", <<"lit", l>>, Factor(d.q, nl)>>, d.r, Factor(d.r, nl))

RECURSIVE Stuck(_), FormAt(_, _)
Stuck(f) == f[1] = "stuck" \/ (f[1] \in {"and", "or"} /\ (Stuck(f[2]) \/ Stuck(f[3])))
FormAt(f, a) ==
    CASE f[1] = "lit" -> f[2] \in a
      [] f[1] = "sop" -> CoverAt(f[2], a)
      [] f[1] = "and" -> FormAt(f[2], a) /\ FormAt(f[3], a)
      [] f[1] = "or"  -> FormAt(f[2], a) \/ FormAt(f[3], a)
===============================================================================
