----------------------------- MODULE TwoPointTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TraceKit
P == INSTANCE TwoPoint WITH Extents <- {}, Walks <- {}, MaxSteps <- 0, mode <- 0, d <- 0, x <- 0, y <- 0, table <- 0, count <- 0, m <- 0
G == INSTANCE Lattice WITH Extents <- {}, U <- 8, UpperSlack <- 0, d <- 0, start <- 0, hops <- 0, reach <- 0,
                           mode <- 0, u <- 0, v <- 0, idx <- 0
T == INSTANCE Trig
VARIABLES geo
tvars == <<l, geo>>
TraceInit == l = 1 /\ geo = [d |-> <<>>, pos |-> <<>>]
Begin == IsEvent("begin") /\ geo' = [d |-> <<>>, pos |-> <<>>]
Geometry == IsEvent("geometry") /\ geo' = [d |-> Ev.d, pos |-> Ev.pos]
N == Len(geo.pos)
Pos(i) == geo.pos[i]
\* one-dimensional table: v[a][b] = value * pi * spacing * 10^6, raw[a][b] = value * 10^6, momentum (full turn / M) * k per spacing
OneD == /\ IsEvent("table1") /\ UNCHANGED geo
        /\ Holds(/\ T!ValidTable(Ev.M, Ev.cos, Ev.sin)
                 /\ \A a, b \in 1..N :
                        LET r == G!RingDist(geo.d[1], Pos(a)[1], Pos(b)[1])
                        IN  IF r = 0 THEN Ev.raw[a][b] = Ev.filling
                            ELSE /\ T!AbsT(Ev.v[a][b] * r - 100 * T!Sin(Ev.sin, Ev.k * r)) <= 200 + r)
        /\ Holds(\A a, b \in 1..N : Ev.v[a][b] = Ev.v[b][a] /\ Ev.dist[a][b] = G!RingDist(geo.d[1], Pos(a)[1], Pos(b)[1]))
\* two-dimensional half-filled table: v = value * pi^2 * 10^6, raw = value * 10^6
TwoD == /\ IsEvent("table2") /\ UNCHANGED geo
        /\ Holds(\A a, b \in 1..N :
              LET x == G!RingDist(geo.d[1], Pos(a)[1], Pos(b)[1])
                  y == G!RingDist(geo.d[2], Pos(a)[2], Pos(b)[2])
                  g == P!G2(x, y)
              IN  CASE g[1] = 0 -> Ev.raw[a][b] = 0
                    [] g[3] = 0 -> T!AbsT(Ev.raw[a][b] * g[2] - g[1] * 1000000) <= g[2]
                    [] g[3] = 1 -> T!AbsT(Ev.vp[a][b] * g[2] - g[1] * 1000000) <= g[2]
                    [] OTHER -> T!AbsT(Ev.vpp[a][b] * g[2] - g[1] * 1000000) <= g[2])
\* dispersion: e[i] = value * 10^4 for J = j/100; momenta -pi + full turn / extent * position.
\* Lattice vector a has length p / q: the angle is (2 position - extent) p / (2 extent q) full turns
CosOf(a, x) == LET n == geo.d[a]  r == Ev.trig[a] IN T!Cos(r.cos, ((2 * x - n) * r.p) % (2 * n * r.q))
Dispersion == /\ IsEvent("dispersion") /\ UNCHANGED geo
              /\ Holds(/\ \A a \in 1..Len(geo.d) : T!ValidTable(2 * geo.d[a] * Ev.trig[a].q, Ev.trig[a].cos, Ev.trig[a].sin)
                       /\ \A i \in 1..N :
                             LET w == -2 * Ev.j * FoldLeft(LAMBDA s, a : s + CosOf(a, Pos(i)[a]), 0, [a \in 1..Len(geo.d) |-> a])
                             IN  T!AbsT(100 * Ev.e[i] - w) <= 110 + T!AbsT(4 * Ev.j))
              \* the zone sums to zero, unless a direction has a single site or another spacing
              /\ Holds((\A a \in 1..Len(geo.d) : geo.d[a] > 1 /\ Ev.trig[a].p = Ev.trig[a].q) => T!AbsT(FoldLeft(LAMBDA s, i : s + Ev.e[i], 0, [i \in 1..N |-> i])) <= N)
\* Fermi momentum of a filling f/1000: k * 1000 / pi (fixed point)
Fermi == IsEvent("fermi") /\ UNCHANGED geo /\ Ev.turn = Ev.filling
\* ---- large lattices and the full precision of the numbers.
\* Sines at multiples of a sixth, quarter or twelfth of the circle, in units of 2 * 10^-9 (half the square root of three rounded)
SinTwelfth(j) == CASE j % 12 \in {0, 6} -> 0 [] j % 12 \in {1, 5} -> 250000000 [] j % 12 \in {2, 4} -> 433012702
                   [] j % 12 = 3 -> 500000000 [] j % 12 \in {7, 11} -> -250000000 [] j % 12 \in {8, 10} -> -433012702
                   [] OTHER -> -500000000
\* value * pi * distance = sin(k distance); on the diagonal the filling (reported times M / 2)
FineOne == /\ IsEvent("fine1") /\ UNCHANGED geo
           /\ Holds(\A j \in 1..Len(Ev.pairs) :
                 LET p == Ev.pairs[j]
                     r == G!RingDist(geo.d[1], p[1], p[2])
                 IN  /\ p[3] = r
                     /\ T!AbsT(p[4] - (IF r = 0 THEN 500000000 ELSE SinTwelfth(r * (12 \div Ev.M)))) <= 5)
\* value * pi^2 (x + y) |x - y| = 2 sin(pi/2 (x + y)) sin(pi/2 |x - y|), a factor left out where a distance is zero
FineTwo == /\ IsEvent("fine2") /\ UNCHANGED geo
           /\ Holds(\A j \in 1..Len(Ev.pairs) :
                 LET p == Ev.pairs[j]
                     x == G!RingDist(geo.d[1], Pos(p[1] + 1)[1], Pos(p[2] + 1)[1])
                     y == G!RingDist(geo.d[2], Pos(p[1] + 1)[2], Pos(p[2] + 1)[2])
                     want == CASE x + y = 0 -> 125000000
                               [] x = y -> 250000000 * P!SinQ(x + y)
                               [] OTHER -> 500000000 * P!SinQ(x + y) * P!SinQ(T!AbsT(x - y))
                 IN  T!AbsT(p[3] - want) <= 5)
\* cos(k + sixth) + cos(k - sixth) = cos(k): in every direction, e(k + sixth) + e(k - sixth) - e(k) depends on the other
\* momenta only.  Units 1 / (2.5 * 10^8); the energies of the corners of the zone are exact
FineDispersion ==
    /\ IsEvent("finedisp") /\ UNCHANGED geo
    /\ LET D == Len(geo.d)
           At(p) == Ev.e[IF D = 1 THEN p[1] + 1 ELSE p[1] * geo.d[2] + p[2] + 1]
           Sh(p, a, k) == [p EXCEPT ![a] = (@ + k) % geo.d[a]]
           Def(p, a) == LET s == geo.d[a] \div 6 IN At(Sh(p, a, s)) + At(Sh(p, a, geo.d[a] - s)) - At(p)
           Unit == 250000000
       IN  /\ Holds(\A k \in 1..N : Pos(k) = IF D = 1 THEN <<k - 1>> ELSE <<(k - 1) \div geo.d[2], (k - 1) % geo.d[2]>>)
           /\ At([a \in 1..D |-> 0]) = 2 * D * Unit
           /\ At([a \in 1..D |-> geo.d[a] \div 2]) = -2 * D * Unit
           /\ Holds(\A k \in 1..N : \A a \in 1..D :
                  /\ T!AbsT(Def(Pos(k), a) - Def([Pos(k) EXCEPT ![a] = 0], a)) <= 10
                  /\ D = 1 => T!AbsT(Def(Pos(k), a)) <= 5
                  /\ T!AbsT(At(Pos(k)) - At([Pos(k) EXCEPT ![a] = (geo.d[a] - @) % geo.d[a]])) <= 3)
\* a long chain: the grid of sixtieths of the zone (starting at -pi), and <<e(k), e(k + sixth), e(k - sixth), e(-k)>> elsewhere
VastDispersion ==
    /\ IsEvent("vastdisp") /\ UNCHANGED geo
    /\ Holds(T!ValidTable(60, Ev.cos, Ev.sin) /\ \A i \in 0..59 : T!AbsT(Ev.grid[i + 1] + 4 * T!Cos(Ev.cos, i + 30)) <= 10)
    /\ Holds(\A i \in 1..Len(Ev.rel) :
           LET r == Ev.rel[i] IN T!AbsT(r[2] + r[3] - r[1]) <= 10 /\ T!AbsT(r[4] - r[1]) <= 5)
TraceNext == Begin \/ VastDispersion \/ FineOne \/ FineTwo \/ FineDispersion \/ Geometry \/ OneD \/ TwoD \/ Dispersion \/ Fermi
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
