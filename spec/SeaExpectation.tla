---------------------------- MODULE SeaExpectation ----------------------------
(***************************************************************************)
(* Expectation values of products of basis elements in a filled Fermi sea. *)
(*                                                                         *)
(* A basis element is either one creator <<k>> (spin up) or a triple       *)
(* <<k1,k2,k3>>, which stands for                                          *)
(*     2 c+_{k1 up} c+_{k2 dn} c_{k3 dn} + delta_{k2,k3} c+_{k1 up}.       *)
(* The value belonging to (i, j) is <FS| b_i b_j^+ |FS>.                   *)
(* First part: the semantics on Fock space.  Second part: the enumeration  *)
(* with delta corrections that the implementation performs, one pair per   *)
(* step, checked against the semantics.                                    *)
(***************************************************************************)
EXTENDS Fock

Mode(k, up) == 2 * k + (IF up THEN 1 ELSE 2)
Cr(k, up) == [c |-> TRUE, m |-> Mode(k, up)]
An(k, up) == [c |-> FALSE, m |-> Mode(k, up)]

\* formal sum of <<integer coefficient, operator product>>
Element(e) ==
    IF Len(e) = 1 THEN << <<1, <<Cr(e[1], TRUE)>> >> >>
    ELSE << <<2, <<Cr(e[1], TRUE), Cr(e[2], FALSE), An(e[3], FALSE)>> >> >>
         \o (IF e[2] = e[3] THEN << <<1, <<Cr(e[1], TRUE)>> >> >> ELSE <<>>)

Filled(occ) == UNION {{Mode(k, TRUE), Mode(k, FALSE)} : k \in occ}

\* b^+ |FS> as a sequence of <<coefficient, state>> (states may repeat)
Ket(e, occ) ==
    LET s == Element(e)
        x == [j \in 1..Len(s) |-> LET y == ApplyOps(OpsAdj(s[j][2]), Filled(occ)) IN <<s[j][1] * y[1], y[2]>>]
    IN  SelectSeq(x, LAMBDA y : y[1] # 0)

SumOver(S, f(_)) == MapThenSumSet(f, S)
Overlap(u, v) ==
    SumOver((1..Len(u)) \X (1..Len(v)),
            LAMBDA p : IF u[p[1]][2] = v[p[2]][2] THEN u[p[1]][1] * v[p[2]][1] ELSE 0)
Value(ei, ej, occ) == Overlap(Ket(ei, occ), Ket(ej, occ))

\* || sum_r conj(v_r) b_r^+ |FS> ||^2 for Gaussian-integer coefficients v
Norm2(elements, vec, occ) ==
    LET parts == FlattenSeq([r \in 1..Len(elements) |->
                    LET k == Ket(elements[r], occ)
                    IN  [j \in 1..Len(k) |-> [s |-> k[j][2], z |-> CScale(k[j][1], vec[r])]]])
        states == {parts[j].s : j \in 1..Len(parts)}
        Amp(s) == FoldLeft(LAMBDA acc, p : IF p.s = s THEN CAdd(acc, p.z) ELSE acc, CZero, parts)
    IN  SumOver(states, LAMBDA s : LET a == Amp(s) IN a[1] * a[1] + a[2] * a[2])
-----------------------------------------------------------------------------
CONSTANT Sizes

Basis(n, q) == << <<q>> >> \o
    [x \in 1..(n * n) |-> LET i1 == (x - 1) \div n
                              i2 == (x - 1) % n
                          IN  <<i1, i2, (i1 + i2 + n - q) % n>>]

VARIABLES n, q, occ, i, j, out
vars == <<n, q, occ, i, j, out>>

Init == /\ n \in Sizes /\ q \in 0..(n - 1) /\ occ \in SUBSET (0..(n - 1))
        /\ i = 1 /\ j = 1 /\ out = <<>>

B == Basis(n, q)
FullOps(e) == Element(e)[1][2]
\* does `left right^+ |FS>` lead back to the initial sea (signs ignored, as the implementation does)?
Back(left, right) == ApplyOps(left \o OpsAdj(right), Filled(occ))[1] # 0
                     /\ ApplyOps(left \o OpsAdj(right), Filled(occ))[2] = Filled(occ)
One(e) == <<Cr(e[1], TRUE)>>
Delta(e) == Len(e) = 3 /\ e[2] = e[3]
Weight(e) == IF Len(e) = 3 THEN 2 ELSE 1

AlgorithmValue(l, r) ==
      (IF Back(FullOps(l), FullOps(r)) THEN Weight(l) * Weight(r) ELSE 0)
    + (IF Delta(l) /\ Back(One(l), FullOps(r)) THEN Weight(r) ELSE 0)
    + (IF Delta(r) /\ Back(FullOps(l), One(r)) THEN Weight(l) ELSE 0)
    + (IF Delta(l) /\ Delta(r) /\ Back(One(l), One(r)) THEN 1 ELSE 0)

Advance == IF j = Len(B) THEN i' = i + 1 /\ j' = 1 ELSE i' = i /\ j' = j + 1
Busy == i <= Len(B)
ListPair == /\ Busy /\ AlgorithmValue(B[i], B[j]) # 0
            /\ out' = Append(out, <<i, j, AlgorithmValue(B[i], B[j])>>) /\ Advance /\ UNCHANGED <<n, q, occ>>
OmitPair == /\ Busy /\ AlgorithmValue(B[i], B[j]) = 0 /\ Advance /\ UNCHANGED <<n, q, occ, out>>
Next == ListPair \/ OmitPair
Spec == Init /\ [][Next]_vars

\* every listed value is the expectation value; every omitted pair has expectation value zero
StepCorrect == Busy => AlgorithmValue(B[i], B[j]) = Value(B[i], B[j], occ)
\* consequences used elsewhere: the table is symmetric and non-negative
Symmetric == Busy => Value(B[i], B[j], occ) = Value(B[j], B[i], occ) /\ Value(B[i], B[j], occ) >= 0
=============================================================================
