------------------------------ MODULE Liouvillian ------------------------------
(***************************************************************************)
(* Equation of motion of operators in the Hubbard model on a lattice:      *)
(* the commutator with H = -J sum c+c + U sum n_up n_down of an element of *)
(* an operator basis, expressed in that basis.                             *)
(*                                                                         *)
(* The commutator is a polynomial of operator products (Fock).  Products   *)
(* are normal ordered with respect to a two-point function G (Wick), which *)
(* gives their components on the normal-ordered one- and three-operator    *)
(* elements.  With G = delta/2 this is the trace-orthogonal projection.    *)
(*                                                                         *)
(* A site geometry is the sequence nb: nb[i+1] lists all neighbours of i   *)
(* (with multiplicity).  All numbers are integers: G is given times Den.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

\* operators <<creator?, site, up?>>, terms [p, ops] with an integer p
Adj1(o) == <<~o[1], o[2], o[3]>>
One(i) == <<<<TRUE, i, TRUE>>>>
Three(i1, i2, i3) == <<<<TRUE, i1, TRUE>>, <<TRUE, i2, FALSE>>, <<FALSE, i3, FALSE>>>>

\* ---- Hamiltonian of nb
Hop(nb, J) ==
    LET n == Len(nb)
        pairs(i) == [k \in 1..Len(nb[i]) |-> <<i - 1, nb[i][k]>>]
        all == FoldLeft(LAMBDA a, i : a \o pairs(i), <<>>, [i \in 1..n |-> i])
        of(s) == [k \in 1..Len(all) |-> [p |-> -J, ops |-> <<<<TRUE, all[k][1], s>>, <<FALSE, all[k][2], s>>>>]]
    IN  of(TRUE) \o of(FALSE)
Repulsion(nb, U) ==
    [i \in 1..Len(nb) |-> [p |-> U, ops |-> <<<<TRUE, i - 1, TRUE>>, <<FALSE, i - 1, TRUE>>,
                                              <<TRUE, i - 1, FALSE>>, <<FALSE, i - 1, FALSE>>>>]]
Ham(nb, J, U) == Hop(nb, J) \o Repulsion(nb, U)

\* AB - BA of two polynomials, skipping pairs of terms that share no mode (they commute: an even product is involved)
Touch(x, y) == \E i \in 1..Len(x), j \in 1..Len(y) : x[i][2] = y[j][2] /\ x[i][3] = y[j][3]
Comm(h, b) ==
    LET pairs == {q \in (1..Len(h)) \X (1..Len(b)) : Touch(h[q[1]].ops, b[q[2]].ops)}
        s == SetToSeq(pairs)
        one(q) == <<[p |-> h[q[1]].p * b[q[2]].p, ops |-> h[q[1]].ops \o b[q[2]].ops],
                    [p |-> -(h[q[1]].p * b[q[2]].p), ops |-> b[q[2]].ops \o h[q[1]].ops]>>
    IN  FoldLeft(LAMBDA a, q : a \o one(q), <<>>, s)

\* ---- normal ordering with respect to the two-point function g: g(a, b) = Den <c+_a c_b>
Contraction(G(_, _), Den, x, y) ==
    IF x[3] # y[3] \/ x[1] = y[1] THEN 0
    ELSE IF x[1] THEN G(x[2], y[2]) ELSE (IF x[2] = y[2] THEN Den ELSE 0) - G(y[2], x[2])
\* all partial contractions that leave `keep` operators: terms [p, ops], each contraction carries a factor Den
RECURSIVE Wick(_, _, _, _)
Wick(G(_, _), Den, ops, keep) ==
    IF Len(ops) < keep THEN <<>>
    ELSE IF Len(ops) = keep THEN <<[p |-> 1, ops |-> ops]>>
    ELSE LET x == Head(ops)
             rest == Tail(ops)
             stay == IF keep = 0 THEN <<>>
                     ELSE LET w == Wick(G, Den, rest, keep - 1)
                          IN  [k \in 1..Len(w) |-> [p |-> w[k].p, ops |-> <<x>> \o w[k].ops]]
             with(j) == LET f == Contraction(G, Den, x, rest[j])
                            sgn == IF j % 2 = 1 THEN 1 ELSE -1
                        IN  IF f = 0 THEN <<>>
                            ELSE LET w == Wick(G, Den, SubSeq(rest, 1, j - 1) \o SubSeq(rest, j + 1, Len(rest)), keep)
                                 IN  [k \in 1..Len(w) |-> [p |-> sgn * f * w[k].p, ops |-> w[k].ops]]
         IN  FoldLeft(LAMBDA a, j : a \o with(j), stay, [j \in 1..Len(rest) |-> j])

\* component of a normal-ordered product on a basis element: sign of the permutation that sorts it, or none
RECURSIVE Parity(_)
Parity(s) == IF s = <<>> THEN 0 ELSE Cardinality({k \in 2..Len(s) : s[k] < s[1]}) + Parity(Tail(s))
Rank(o) == IF o[1] /\ o[3] THEN 1 ELSE IF o[1] /\ ~o[3] THEN 2 ELSE IF ~o[1] /\ ~o[3] THEN 3 ELSE 4
ElementOf(ops) ==      \* <<sign, element>>; sign 0 if the product is not in the basis
    LET r == [k \in 1..Len(ops) |-> Rank(ops[k])]
    IN  IF Len(ops) = 1 THEN (IF r = <<1>> THEN <<1, ops>> ELSE <<0, ops>>)
        ELSE IF {r[k] : k \in 1..3} # {1, 2, 3} THEN <<0, ops>>
        ELSE <<IF Parity(r) % 2 = 0 THEN 1 ELSE -1,
               [k \in 1..3 |-> ops[CHOOSE j \in 1..3 : r[j] = k]]>>

\* basis elements as polynomials: normal ordered three-operator elements c+ (c+c - g), times Den
Poly(G(_, _), Den, e) ==
    IF Len(e) = 1 THEN <<[p |-> Den, ops |-> e]>>
    ELSE <<[p |-> Den, ops |-> e], [p |-> -G(e[2][2], e[3][2]), ops |-> <<e[1]>>]>>
Pow(b, k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN b ELSE IF k = 2 THEN b * b ELSE b * b * b
\* the components of [H, element], as a function element -> number * Den^4 (zeroes left out)
MaxC == 3
Sum2(list) ==   \* list of <<element, number>>  ->  function
    LET es == {list[k][1] : k \in 1..Len(list)}
        tot(e) == FoldLeft(LAMBDA a, x : IF x[1] = e THEN a + x[2] ELSE a, 0, list)
        nz == {e \in es : tot(e) # 0}
    IN  [e \in nz |-> tot(e)]
CommutatorRow(G(_, _), Den, nb, J, U, e) ==
    LET c == Comm(Ham(nb, J, U), Poly(G, Den, e))
        comp(keep) == FoldLeft(LAMBDA a, t :
                          LET w == Wick(G, Den, t.ops, keep)
                              \* a term with (Len - keep)/2 contractions carries that many factors Den
                              f == t.p * Pow(Den, MaxC - ((Len(t.ops) - keep) \div 2))
                              here == [k \in 1..Len(w) |-> LET x == ElementOf(w[k].ops) IN <<x[2], x[1] * f * w[k].p>>]
                          IN  a \o SelectSeq(here, LAMBDA x : x[2] # 0), <<>>, c)
    IN  Sum2(comp(1) \o comp(3))
-----------------------------------------------------------------------------
(* The same row in closed form: a list of contributions <<element, value>>, values times Den^2. *)
HopRow(Den, nb, J, e) ==
    LET f == J * Den * Den
        move(k, sgn) == LET l == nb[e[k][2] + 1]
                        IN  [j \in 1..Len(l) |-> <<[e EXCEPT ![k] = <<@[1], l[j], @[3]>>], sgn * f>>]
    IN  IF Len(e) = 1 THEN move(1, -1) ELSE move(1, -1) \o move(2, -1) \o move(3, 1)
\* G is a matrix that commutes with the hopping and has a constant diagonal (translation invariance)
NormalOrderedRow(G(_, _), Den, nb, J, U, e) ==
    LET D(a, b) == (IF a = b THEN Den ELSE 0) - G(b, a)
    IN  HopRow(Den, nb, J, e) \o
        (IF Len(e) = 1
         THEN LET i == e[1][2] IN << <<One(i), U * Den * G(i, i)>>, <<Three(i, i, i), U * Den * Den>> >>
         ELSE LET a == e[1][2]
                  b == e[2][2]
                  c == e[3][2]
              IN  << <<One(a), U * G(b, a) * D(c, a)>>,
                     <<e, U * Den * G(a, a)>>,
                     <<Three(a, a, c), -U * Den * G(b, a)>>,
                     <<Three(a, b, a), U * Den * D(c, a)>> >>
                  \o (IF b = c THEN <<>>
                      ELSE << <<One(b), U * D(b, a) * G(b, c)>>,
                              <<One(c), -U * D(c, a) * G(b, c)>>,
                              <<Three(b, b, c), U * Den * D(b, a)>>,
                              <<Three(c, b, c), -U * Den * D(c, a)>> >>))
\* trace-orthogonal basis with elements 2 c+c+c - delta c+ (Den = 1 here, U even)
OrthogonalRow(nb, J, U, e) ==
    HopRow(1, nb, J, e) \o << <<e, U \div 2>> >> \o
    (IF Len(e) = 1 THEN << <<Three(e[1][2], e[1][2], e[1][2]), U \div 2>> >>
     ELSE IF e[1][2] = e[2][2] /\ e[1][2] = e[3][2] THEN << <<One(e[1][2]), U \div 2>> >> ELSE <<>>)
KineticRow(nb, J, e) == HopRow(1, nb, J, e)
=============================================================================
