------------------------------- MODULE Lattice -------------------------------
(***************************************************************************)
(* Periodic lattices.  A lattice has extents d = <<n1>> or <<n1, n2>>; a   *)
(* site position is a tuple of coordinates 0..n-1 per direction.           *)
(* Coordinates of points are integers in units of (lattice spacing / U).   *)
(*                                                                         *)
(* Model: (1) the set of sites reachable within k hops (breadth first)     *)
(* against the ring-distance formula; (2) the wrap-and-round lookup of a   *)
(* coordinate, one step per wrap, against the set of nearest sites.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, TLC

Abs0(x) == IF x < 0 THEN -x ELSE x
Min2(a, b) == IF a < b THEN a ELSE b

\* ---- rings
RingDist(n, a, b) == LET k == Abs0(a - b) IN Min2(k, n - k)
NextOf(n, a) == (a + 1) % n
PrevOf(n, a) == (a + n - 1) % n

\* distance (in units) of the coordinate u from site i on a ring of circumference n * U
Gap(n, U, u, i) == LET len == n * U
                       k == (u - i * U) % len
                   IN  Min2(k, len - k)
NearestGap(n, U, u) == LET k == u % U IN Min2(k, U - k)
IsNearest(n, U, u, i) == i \in 0..(n - 1) /\ Gap(n, U, u, i) = NearestGap(n, U, u)

\* ---- tori
Positions(d) == IF Len(d) = 1 THEN {<<x>> : x \in 0..(d[1] - 1)}
                ELSE {<<x, y>> : x \in 0..(d[1] - 1), y \in 0..(d[2] - 1)}
Hop(d, p, axis, forward) == [p EXCEPT ![axis] = IF forward THEN NextOf(d[axis], @) ELSE PrevOf(d[axis], @)]
NeighborsOf(d, p) == {Hop(d, p, a, f) : a \in 1..Len(d), f \in BOOLEAN}
ForwardOf(d, p) == {Hop(d, p, a, TRUE) : a \in 1..Len(d)}
Dist(d, p, q) == IF Len(d) = 1 THEN RingDist(d[1], p[1], q[1])
                 ELSE RingDist(d[1], p[1], q[1]) + RingDist(d[2], p[2], q[2])
-----------------------------------------------------------------------------
CONSTANTS Extents, U, UpperSlack     \* UpperSlack: how far beyond the last site a coordinate may lie before it is wrapped

VARIABLES d, start, hops, reach, mode, u, v, idx
vars == <<d, start, hops, reach, mode, u, v, idx>>

WalkInit == /\ mode = "walk" /\ d \in Extents /\ start \in Positions(d) /\ hops = 0 /\ reach = {start}
            /\ u = 0 /\ v = 0 /\ idx = 0
LookInit == /\ mode = "look" /\ d \in {e \in Extents : Len(e) = 1}
            /\ u \in (-2 * d[1] * U)..(3 * d[1] * U) /\ v = u /\ idx = -1
            /\ start = <<0>> /\ hops = 0 /\ reach = {}
Init == WalkInit \/ LookInit

Widen == /\ mode = "walk" /\ reach # Positions(d)
         /\ reach' = reach \cup UNION {NeighborsOf(d, p) : p \in reach}
         /\ hops' = hops + 1 /\ UNCHANGED <<d, start, mode, u, v, idx>>
Upper == (d[1] - 1) * U + UpperSlack
WrapUp   == /\ mode = "look" /\ idx = -1 /\ v < 0 /\ v' = v + d[1] * U
            /\ UNCHANGED <<d, start, hops, reach, mode, u, idx>>
TurnDown == /\ mode = "look" /\ idx = -1 /\ ~(v < 0) /\ idx' = -3
            /\ UNCHANGED <<d, start, hops, reach, mode, u, v>>
WrapDown == /\ mode = "look" /\ idx = -3 /\ v > Upper /\ v' = v - d[1] * U
            /\ UNCHANGED <<d, start, hops, reach, mode, u, idx>>
\* round half away from zero
Rounded(x) == IF x >= 0 THEN (2 * x + U) \div (2 * U) ELSE -((2 * (-x) + U) \div (2 * U))
Round    == /\ mode = "look" /\ idx = -3 /\ ~(v > Upper)
            /\ idx' = (IF Rounded(v) < 0 THEN -2 ELSE Rounded(v) % d[1])
            /\ UNCHANGED <<d, start, hops, reach, mode, u, v>>
Next == Widen \/ WrapUp \/ TurnDown \/ WrapDown \/ Round
Spec == Init /\ [][Next]_vars

DistanceIsShortestPath == mode = "walk" => reach = {p \in Positions(d) : Dist(d, start, p) <= hops}
Symmetric == mode = "walk" => \A p \in Positions(d) : /\ Dist(d, start, p) = Dist(d, p, start)
                                                     /\ (p \in NeighborsOf(d, start)) = (start \in NeighborsOf(d, p))
                                                     /\ (\A a \in 1..Len(d) : RingDist(d[a], start[a], p[a]) * 2 <= d[a])
BondsOnce == (mode = "walk" /\ (\A a \in 1..Len(d) : d[a] > 2)) =>
    \A p \in NeighborsOf(d, start) : (p \in ForwardOf(d, start)) # (start \in ForwardOf(d, p))
NeighboringIffOne == (mode = "walk" /\ (\A a \in 1..Len(d) : d[a] > 1)) =>
    \A p \in Positions(d) : (p \in NeighborsOf(d, start)) = (Dist(d, start, p) = 1)
LookupNearest == (mode = "look" /\ idx \notin {-1, -3}) => IsNearest(d[1], U, u, idx)
SitesFound == (mode = "look" /\ idx \notin {-1, -3} /\ u % U = 0) => idx = (u \div U) % d[1]
=============================================================================
