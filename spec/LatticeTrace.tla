----------------------------- MODULE LatticeTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TraceKit
L == INSTANCE Lattice WITH Extents <- {}, U <- 8, UpperSlack <- 0, d <- 0, start <- 0, hops <- 0, reach <- 0,
                           mode <- 0, u <- 0, v <- 0, idx <- 0
U == 8
VARIABLES d, pos      \* extents; position tuple of every site (site number + 1 -> tuple)
tvars == <<l, d, pos>>
TraceInit == l = 1 /\ d = <<>> /\ pos = <<>>
Begin == IsEvent("begin") /\ d' = <<>> /\ pos' = <<>>
N == Len(pos)
P(i) == pos[i + 1]
Sites == 0..(N - 1)
Near(a, b, tol) == a - b \in (-tol)..tol

\* extents, ranges, and the numbering of sites (a bijection with the positions)
Create == /\ IsEvent("lattice")
          /\ LET dd == Ev.d
                 total == IF Len(dd) = 1 THEN dd[1] ELSE dd[1] * dd[2]
             IN  /\ Ev.size = total /\ Ev.first = 0 /\ Ev.last = total - 1
                 /\ Ev.sizes = dd
                 /\ Len(Ev.pos) = total
                 /\ {Ev.pos[k] : k \in 1..total} = L!Positions(dd)
                 /\ Ev.inverse = [k \in 1..total |-> k - 1]
                 \* coordinates: axis ranges in units of spacing / U, absolute values times 10^6
                 /\ \A a \in 1..Len(dd) :
                        /\ Ev.length[a] = dd[a] * U
                        /\ IF Ev.real
                           THEN Ev.min6[a] = 0 /\ Ev.max[a] = (dd[a] - 1) * U /\ Near(Ev.dx6[a], Ev.given6[a], 1)
                           ELSE Ev.min6[a] = -3141593 /\ Ev.max[a] = dd[a] * U
                                /\ Near(Ev.dx6[a] * dd[a], 6283185, dd[a])
                                /\ \A k \in 1..Len(Ev.ulps[a]) : Near(Ev.ulps[a][k], 0, 4)
                 \* lattice vectors are the axes with the spacing as length
                 /\ Ev.vectors = [a \in 1..Len(dd) |-> [b \in 1..Len(dd) |-> IF a = b THEN U ELSE 0]]
          /\ d' = Ev.d /\ pos' = Ev.pos
\* coordinates of all sites
Coordinates == /\ IsEvent("coords")
               /\ Ev.c = [k \in 1..N |-> [a \in 1..Len(d) |-> pos[k][a] * U]]
               /\ UNCHANGED <<d, pos>>
Neighbors == /\ IsEvent("neighbors") /\ Ev.i \in Sites
             /\ Holds(\A k \in 1..Len(Ev.all) : Ev.all[k] \in Sites)
             /\ Holds(\A k \in 1..Len(Ev.unique) : Ev.unique[k] \in Sites)
             /\ Len(Ev.all) = 2 * Len(d) /\ Len(Ev.unique) = Len(d)
             \* every hop is listed with its multiplicity
             /\ \A q \in L!NeighborsOf(d, P(Ev.i)) :
                    Cardinality({k \in 1..Len(Ev.all) : P(Ev.all[k]) = q})
                      = Cardinality({h \in (1..Len(d)) \X BOOLEAN : L!Hop(d, P(Ev.i), h[1], h[2]) = q})
             /\ {P(Ev.unique[k]) : k \in 1..Len(Ev.unique)} = L!ForwardOf(d, P(Ev.i))
             /\ Holds(\A k \in 1..Len(Ev.unique) : Ev.unique[k] \in {Ev.all[j] : j \in 1..Len(Ev.all)})
             /\ UNCHANGED <<d, pos>>
Pair == /\ IsEvent("pair")
        /\ Ev.dist = [a \in 1..Len(d) |-> L!RingDist(d[a], P(Ev.a)[a], P(Ev.b)[a])]
        /\ (\A a \in 1..Len(d) : d[a] > 1) => Ev.neighboring = (L!Dist(d, P(Ev.a), P(Ev.b)) = 1)
        /\ UNCHANGED <<d, pos>>
\* site at / closest to a coordinate (in units of spacing / U from the first site; a tiny distance beside it: the same side of
\* all ties as half a unit)
NearestSite(i) == i \in Sites /\ \A a \in 1..Len(d) : L!IsNearest(d[a], 2 * U, 2 * Ev.u[a] + Ev.tiny[a], P(i)[a])
Lookup == /\ IsEvent("lookup") /\ NearestSite(Ev.at) /\ NearestSite(Ev.closest) /\ UNCHANGED <<d, pos>>
\* iteration visits every site once, in order, however it is done
Iterate == /\ IsEvent("iterate")
           /\ Holds(\A k \in 1..Len(Ev.runs) : Ev.runs[k] = [j \in 1..N |-> j - 1])
           /\ Holds(\A k \in 1..Len(Ev.counts) : Ev.counts[k] = N)
           /\ UNCHANGED <<d, pos>>
\* ---- lattices with more than 2^32 sites; numbers are <<high, low>> in base 2^20
Base == 1048576
Big(x) == <<x \div Base, x % Base>>
BLess(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
BSub(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + Base - b[2]>>
BAdd(a, b) == IF a[2] + b[2] < Base THEN <<a[1] + b[1], a[2] + b[2]>> ELSE <<a[1] + b[1] + 1, a[2] + b[2] - Base>>
BMod(a, p) == ((a[1] % p) * (Base % p) + a[2]) % p
BRing(n, a, b) == LET k == IF BLess(a, b) THEN BSub(b, a) ELSE BSub(a, b)
                      m == BSub(n, k)
                  IN  IF BLess(k, m) THEN k ELSE m
BNext(n, x) == IF BAdd(x, <<0, 1>>) = n THEN <<0, 0>> ELSE BAdd(x, <<0, 1>>)
BPrev(n, x) == IF x = <<0, 0>> THEN BSub(n, <<0, 1>>) ELSE BSub(x, <<0, 1>>)
BHop(dd, p, a, forward) == [p EXCEPT ![a] = IF forward THEN BNext(dd[a], @) ELSE BPrev(dd[a], @)]
Primes == <<32749, 32719, 32693, 32687>>
Vast == /\ IsEvent("vast")
        /\ LET dd == Ev.d
               A == 1..Len(dd)
               one == <<0, 1>>
               \* x Ny + y, modulo a prime
               NumMod(p, m) == IF Len(dd) = 1 THEN BMod(p[1], m) ELSE (BMod(p[1], m) * BMod(dd[2], m) + BMod(p[2], m)) % m
               SizeMod(m) == IF Len(dd) = 1 THEN BMod(dd[1], m) ELSE (BMod(dd[1], m) * BMod(dd[2], m)) % m
               dist == [a \in A |-> BRing(dd[a], Ev.p[a], Ev.q[a])]
           IN  /\ Ev.sizes = dd
               /\ Ev.size = [k \in 1..4 |-> SizeMod(Primes[k])]
               /\ Ev.last = [k \in 1..4 |-> (SizeMod(Primes[k]) + Primes[k] - 1) % Primes[k]]
               /\ Ev.number = [k \in 1..4 |-> NumMod(Ev.p, Primes[k])]
               /\ Ev.back = Ev.p /\ Ev.coord = Ev.p
               /\ Len(Ev.all) = 2 * Len(dd) /\ Len(Ev.unique) = Len(dd)
               /\ {Ev.all[k] : k \in 1..Len(Ev.all)} = {BHop(dd, Ev.p, a, f) : a \in A, f \in BOOLEAN}
               /\ {Ev.unique[k] : k \in 1..Len(Ev.unique)} = {BHop(dd, Ev.p, a, TRUE) : a \in A}
               /\ Ev.dist = dist
               /\ Ev.neighboring = (\E a \in A : dist[a] = one /\ \A b \in A \ {a} : dist[b] = <<0, 0>>)
               /\ Holds(\A k \in 1..Len(Ev.found) : Ev.found[k] = Ev.p)
        /\ UNCHANGED <<d, pos>>
\* spacing 1 + 2^-30; numbers are <<n, m>> = n + m 2^-30
Precise == /\ IsEvent("precise")
           /\ LET dd == Ev.d
                  A == 1..Len(dd)
                  T(n) == <<n, n>>
              IN  /\ Ev.dx = [a \in A |-> T(1)] /\ Ev.vectors = [a \in A |-> T(1)]
                  /\ Ev.length = [a \in A |-> T(dd[a])] /\ Ev.max = [a \in A |-> T(dd[a] - 1)]
                  /\ Ev.c = IF Len(dd) = 1 THEN [k \in 1..dd[1] |-> <<T(k - 1)>>]
                            ELSE [k \in 1..(dd[1] * dd[2]) |-> <<T((k - 1) \div dd[2]), T((k - 1) % dd[2])>>]
           /\ UNCHANGED <<d, pos>>
TraceNext == Begin \/ Vast \/ Precise \/ Create \/ Coordinates \/ Neighbors \/ Pair \/ Lookup \/ Iterate
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
