------------------------------- MODULE TwoPoint -------------------------------
(***************************************************************************)
(* Tables of lattice functions.                                             *)
(* (1) Half-filled square lattice: by a rotation of the diamond-shaped      *)
(*     Fermi sea, g(x, y) = 2 g1(x + y) g1(x - y) with the half-filled      *)
(*     one-dimensional function g1(0) = 1/2, g1(r) = sin(pi r/2)/(pi r).    *)
(*     Values are kept as exact pairs: (num / den) * pi^-k.                  *)
(*     The model fills the table by the distances along both axes and looks *)
(*     pairs of sites up in it.                                             *)
(* (2) Dispersion: -2J sum cos(k_a).  The spectrum of the hopping operator: *)
(*     its m-th moment times N counts closed walks of m steps.  (Extents    *)
(*     3, 4, 6: integer values of 2 cos.)                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC
G == INSTANCE Lattice WITH Extents <- {}, U <- 8, UpperSlack <- 0, d <- 0, start <- 0, hops <- 0, reach <- 0,
                           mode <- 0, u <- 0, v <- 0, idx <- 0
SinQ(r) == CASE r % 4 = 1 -> 1 [] r % 4 = 3 -> -1 [] OTHER -> 0       \* sin(pi r / 2)
\* <<num, den, k>>: num/den * pi^-k
G1(r) == IF r = 0 THEN <<1, 2, 0>> ELSE <<SinQ(r), r, 1>>
AbsG(x) == IF x < 0 THEN -x ELSE x
G2(x, y) == LET a == G1(x + y)
                b == G1(AbsG(x - y))
            IN  <<2 * a[1] * b[1], a[2] * b[2], a[3] + b[3]>>
-----------------------------------------------------------------------------
CONSTANTS Extents, Walks, MaxSteps
VARIABLES mode, d, x, y, table, count, m
vars == <<mode, d, x, y, table, count, m>>
Init == \/ /\ mode = "table" /\ d \in Extents /\ x = 0 /\ y = 0 /\ table = <<>> /\ count = 0 /\ m = 0
        \/ /\ mode = "walk" /\ d \in Walks /\ x = 0 /\ y = 0 /\ table = <<>> /\ m = 0
           /\ count = [p \in G!Positions(d) |-> IF \A a \in 1..Len(d) : p[a] = 0 THEN 1 ELSE 0]
MX == d[1] \div 2
MY == d[2] \div 2
\* the branches of the computation
Value(a, b) == IF a = b THEN (IF a = 0 THEN <<1, 2, 0>> ELSE <<SinQ(a + b), a + b, 1>>)
               ELSE <<2 * SinQ(a + b) * SinQ(AbsG(a - b)), (a + b) * AbsG(a - b), 2>>
Fill == /\ mode = "table" /\ x <= MX
        /\ table' = Append(table, Value(x, y))
        /\ (IF y < MY THEN y' = y + 1 /\ x' = x ELSE y' = 0 /\ x' = x + 1)
        /\ UNCHANGED <<mode, d, count, m>>
Step == /\ mode = "walk" /\ m < MaxSteps /\ m' = m + 1
        /\ count' = [p \in G!Positions(d) |->
              FoldLeft(LAMBDA s, a : s + count[G!Hop(d, p, a, TRUE)] + count[G!Hop(d, p, a, FALSE)], 0, [a \in 1..Len(d) |-> a])]
        /\ UNCHANGED <<mode, d, x, y, table>>
Next == Fill \/ Step
Spec == Init /\ [][Next]_vars
Lookup(p, q) == table[(MY + 1) * G!RingDist(d[1], p[1], q[1]) + G!RingDist(d[2], p[2], q[2]) + 1]
SameValue(a, b) == IF a[1] = 0 \/ b[1] = 0 THEN a[1] = b[1] ELSE a[1] * b[2] = b[1] * a[2] /\ a[3] = b[3]
TableIsProductForm == mode = "table" /\ x > MX => \A p, q \in G!Positions(d) :
    /\ SameValue(Lookup(p, q), G2(G!RingDist(d[1], p[1], q[1]), G!RingDist(d[2], p[2], q[2])))
    /\ Lookup(p, q) = Lookup(q, p)
    /\ \A a \in {1, 2}, f \in BOOLEAN : Lookup(G!Hop(d, p, a, f), G!Hop(d, q, a, f)) = Lookup(p, q)
TwoCos(n, k) == CASE n = 3 -> (IF k % 3 = 0 THEN 2 ELSE -1)
                  [] n = 4 -> (CASE k % 4 = 0 -> 2 [] k % 4 = 2 -> -2 [] OTHER -> 0)
                  [] n = 6 -> (CASE k % 6 = 0 -> 2 [] k % 6 = 3 -> -2 [] k % 6 \in {1, 5} -> 1 [] OTHER -> -1)
Eps(p) == -FoldLeft(LAMBDA s, a : s + TwoCos(d[a], p[a]), 0, [a \in 1..Len(d) |-> a])       \* J = 1
RECURSIVE Power(_, _)
Power(b, k) == IF k = 0 THEN 1 ELSE b * Power(b, k - 1)
Moments == mode = "walk" =>
    /\ MapThenSumSet(LAMBDA p : Power(Eps(p), m), G!Positions(d)) =
          Power(-1, m) * Cardinality(G!Positions(d)) * count[[a \in 1..Len(d) |-> 0]]
    /\ \A p \in G!Positions(d) : Eps(p) \in (-2 * Len(d))..(2 * Len(d)) /\ Eps([a \in 1..Len(d) |-> (d[a] - p[a]) % d[a]]) = Eps(p)
=============================================================================
