----------------------------- MODULE MomentumMatrix -----------------------------
(***************************************************************************)
(* Equation of motion in momentum space.  Entry(e, f) is the coefficient   *)
(* of element f in the commutator of H with element e of the               *)
(* three-operator basis of start momentum q, times 2N, for a dispersion    *)
(* eps and an interaction U.                                               *)
(*                                                                         *)
(* Model: on rings of 2 and 4 sites (where exp(ikr) is a Gaussian integer) *)
(* these entries are the Fourier transform of the real-space rows, which   *)
(* the model of Liouvillian derives from the commutator.                   *)
(***************************************************************************)
EXTENDS Liouvillian

\* times 2N
Entry(N, Eps(_), U, e, f) ==
    (IF e = f THEN 2 * N * (IF Len(e) = 1 THEN Eps(e[1][2]) ELSE Eps(e[1][2]) + Eps(e[2][2]) - Eps(e[3][2])) + N * U
     ELSE 0)
    + (IF Len(e) # Len(f) THEN U ELSE 0)
-----------------------------------------------------------------------------
CONSTANTS Rings4, Js, Us
VARIABLES n, q, J, U, e, s
vars == <<n, q, J, U, e, s>>
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CScale(k, a) == <<k * a[1], k * a[2]>>
\* i^k
Root(k) == CASE k % 4 = 0 -> <<1, 0>> [] k % 4 = 1 -> <<0, 1>> [] k % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
\* momentum number m on a ring of n: k = -pi + 2 pi m / n, in units of pi/2
Units(m) == -2 + (4 * m) \div n
Phase(k, r) == Root(Units(k) * r)
Ring(m) == [i \in 1..m |-> <<i % m, (i + m - 2) % m>>]
\* -2J cos k
Eps(m) == -2 * J * Root(Units(m))[1]
MomentumEls == {One(q)} \cup {x \in {Three(t[1], t[2], t[3]) : t \in (0..(n - 1)) \X (0..(n - 1)) \X (0..(n - 1))} :
                              (x[1][2] + x[2][2] - x[3][2] - q) % n = 0}
RealEls == {One(i) : i \in 0..(n - 1)} \cup {Three(t[1], t[2], t[3]) : t \in (0..(n - 1)) \X (0..(n - 1)) \X (0..(n - 1))}
\* component of momentum element k on the real element r, times n^(3/2)
Component(k, r) ==
    IF Len(k) # Len(r) THEN <<0, 0>>
    ELSE IF Len(k) = 1 THEN CScale(n, Phase(k[1][2], r[1][2]))
    ELSE Root(Units(k[1][2]) * r[1][2] + Units(k[2][2]) * r[2][2] - Units(k[3][2]) * r[3][2])
Init == /\ n \in Rings4 /\ q \in 0..(n - 1) /\ J \in Js /\ U \in Us /\ e \in MomentumEls /\ s \in RealEls
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
CSum(S, F(_)) == FoldSet(LAMBDA x, a : CAdd(F(x), a), <<0, 0>>, S)
\* the real-space matrix is symmetric, so the column of s is its row
IsFourierTransform ==
    LET row == Sum2(OrthogonalRow(Ring(n), J, U, s))
        lhs == CSum(DOMAIN row, LAMBDA r : CScale(row[r], Component(e, r)))
        rhs == CSum(MomentumEls, LAMBDA k : CScale(Entry(n, Eps, U, e, k), Component(k, s)))
    IN  CScale(2 * n, lhs) = rhs
=============================================================================
