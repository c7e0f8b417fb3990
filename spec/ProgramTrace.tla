------------------------------ MODULE ProgramTrace ------------------------------
(* Output of the simulation programs.  A base run observes after every step   *)
(* and is followed step by step; other runs with the same physics differ in    *)
(* interval, end, number of threads and must give the rows of the schedule.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TraceKit
P == INSTANCE Program WITH N <- 0, Js <- {}, Us <- {}, Widths <- {}, MaxSteps <- 0, Gs <- {},
                           J <- 0, U <- 0, w <- 0, g <- 0, A <- 0, P <- 0, h <- 0, n <- 0
R == INSTANCE RunLoop WITH D <- 1, MaxSteps <- 0, Intervals <- {}, t <- 0, last <- 0, n <- 0, end <- 0, interval <- 0, rows <- 0, pc <- 0
G == INSTANCE Lattice WITH Extents <- {}, U <- 8, UpperSlack <- 0, d <- 0, start <- 0, hops <- 0, reach <- 0,
                           mode <- 0, u <- 0, v <- 0, idx <- 0
T == INSTANCE Trig
W == INSTANCE TwoPoint WITH Extents <- {}, Walks <- {}, MaxSteps <- 0, mode <- 0, d <- 0, x <- 0, y <- 0, table <- 0, count <- 0, m <- 0
M == INSTANCE MomentumMatrix WITH Rings4 <- {}, Js <- {}, Us <- {}, n <- 0, q <- 0, J <- 0, U <- 0, e <- 0, s <- 0
F == INSTANCE SeaExpectation WITH Sizes <- {}, n <- 0, q <- 0, occ <- 0, i <- 0, j <- 0, out <- 0
VARIABLES prog, h, rows
tvars == <<l, prog, h, rows>>
S == P!S
TraceInit == l = 1 /\ prog = [kind |-> "none"] /\ h = <<>> /\ rows = <<>>
Begin == IsEvent("begin") /\ prog' = [kind |-> "none"] /\ h' = <<>> /\ rows' = <<>>
Abs(x) == IF x < 0 THEN -x ELSE x
\* ---- two-point functions, times S
InvPi == 3183
Chain(n, e) ==      \* filling p/q: the sine kernel of the Fermi momentum pi p/q; tables of M = 2q
    LET r(a, b) == G!RingDist(n, a, b)
        v(x) == IF x = 0 THEN (S * e.filling[1]) \div e.filling[2] ELSE P!Div(P!FMul(T!Sin(e.sin, e.filling[1] * x), InvPi), x)
    IN  [a \in 1..n |-> [b \in 1..n |-> v(r(a - 1, b - 1))]]
Scaled(x) == LET y == P!Div(x[1] * S, x[2]) IN IF x[3] = 0 THEN y ELSE IF x[3] = 1 THEN P!FMul(y, InvPi) ELSE P!FMul(P!FMul(y, InvPi), InvPi)
Square(nx, ny) ==
    LET s(i) == <<(i - 1) % nx, (i - 1) \div nx>>
    IN  [a \in 1..(nx * ny) |-> [b \in 1..(nx * ny) |-> Scaled(W!G2(G!RingDist(nx, s(a)[1], s(b)[1]), G!RingDist(ny, s(a)[2], s(b)[2])))]]
\* ---- momentum space (extents with integer 2 cos): momentum m is -pi + 2 pi m / n, so eps = -2J cos = J TwoCos
MEls(n) == P!ElsM(n, n \div 2)
EpsTwice(e, m) == e.J2 * W!TwoCos(e.d[1], m)
MSparse(e) ==
    LET n == e.d[1]
        els == MEls(n)
        eps(m) == EpsTwice(e, m)
    IN  [k \in 1..Len(els) |-> LET z == [c \in 1..Len(els) |-> <<c, M!Entry(n, eps, e.U2, els[k], els[c])>>]
                               IN  SelectSeq(z, LAMBDA x : x[2] # 0)]
Signed(k) == IF Len(k) = 1 THEN << <<1, <<F!Cr(k[1], TRUE)>> >> >>
             ELSE << <<2, <<F!Cr(k[1], TRUE), F!Cr(k[2], FALSE), F!An(k[3], FALSE)>> >> >>
                  \o (IF k[2] = k[3] THEN << <<-1, <<F!Cr(k[1], TRUE)>> >> >> ELSE <<>>)
\* overlap tables of the elements with either sign of the one-operator part
MTables(e) ==
    LET n == e.d[1]
        bare == F!Basis(n, n \div 2)
        occ == {m \in 0..(n - 1) : EpsTwice(e, m) < 0}
        kp == [k \in 1..Len(bare) |-> F!Ket(bare[k], occ)]
        sk(x) == LET s == Signed(x)
                     z == [j \in 1..Len(s) |-> LET y == F!ApplyOps(F!OpsAdj(s[j][2]), F!Filled(occ)) IN <<s[j][1] * y[1], y[2]>>]
                 IN  SelectSeq(z, LAMBDA y : y[1] # 0)
        km == [k \in 1..Len(bare) |-> sk(bare[k])]
    IN  <<[a \in 1..Len(bare) |-> [b \in 1..Len(bare) |-> 2 * S * F!Overlap(km[a], km[b])]],
          [a \in 1..Len(bare) |-> [b \in 1..Len(bare) |-> 2 * S * F!Overlap(kp[a], kp[b])]]>>
\* ---- the programs
Size(e) == FoldLeft(LAMBDA a, x : a * x, 1, e.d)
Els(e) == CASE e.kind = "kinetic" -> P!Els1(Size(e)) [] e.kind = "momentum" -> MEls(e.d[1]) [] OTHER -> P!Els3(Size(e))
Nb(e) == IF Len(e.d) = 1 THEN P!Ring(e.d[1]) ELSE P!Torus(e.d[1], e.d[2])
\* the equation of motion times den (J, U given times 2; OrthogonalRow halves U once more)
Rows(e) == CASE e.kind = "kinetic" -> P!Sparse(Size(e), Els(e), LAMBDA b : P!KineticRow(Nb(e), e.J2, b))
             [] e.kind = "momentum" -> MSparse(e)
             [] OTHER -> P!Sparse(Size(e), Els(e), LAMBDA b : P!OrthogonalRow(Nb(e), 2 * e.J2, 2 * e.U2, b))
Den(e) == CASE e.kind = "kinetic" -> 2 [] e.kind = "momentum" -> 4 * e.d[1] [] OTHER -> 4
Two(e) == IF Len(e.d) = 1 THEN Chain(e.d[1], e) ELSE Square(e.d[1], e.d[2])
\* phase of a site: k (in full turns / M per spacing) times its position
Phases(e) == [i \in 1..Size(e) |-> LET p == IF Len(e.d) = 1 THEN e.k[1] * (i - 1)
                                             ELSE e.k[1] * ((i - 1) % e.d[1]) + e.k[2] * ((i - 1) \div e.d[1])
                                   IN  <<T!Cos(e.cos, p), T!Sin(e.sin, p)>>]
Program ==
    /\ IsEvent("program") /\ Holds(T!ValidTable(Ev.M, Ev.cos, Ev.sin))
    /\ \E A \in {Rows(Ev)} :
       \E obs \in {CASE Ev.obs = "occupation" -> <<P!Pairs(Two(Ev), Els(Ev))>>
                     [] Ev.obs = "jump" -> <<Two(Ev), Phases(Ev)>>
                     [] Ev.obs = "number" -> MTables(Ev)
                     [] OTHER -> <<>>} :
          prog' = [kind |-> Ev.kind, obs |-> Ev.obs, n |-> Size(Ev), dt |-> Ev.dt, exact |-> Ev.exact, A |-> A, den |-> Den(Ev), o |-> obs]
    /\ h' = P!Start(Len(Els(Ev))) /\ rows' = <<>>
\* values of rows are given times 10^5
Near(x, y, t) == Abs(x - y) <= t
TimeOk(t, n) == Abs(t * prog.dt[2] - n * prog.dt[1] * 100000) <= prog.dt[2] * (1 + t \div 100000)
\* the observable of a state times 10^5: tolerance 7 10^-3 absolute plus 1/500 of the value
ObsNear(x, y) == Near(x, 10 * y, 700 + Abs(x) \div 500)
Observed(v) ==
    CASE prog.obs = "coefficients" -> /\ Len(v) = 2 * Len(h)
                                      /\ \A k \in 1..Len(h) : Near(v[2 * k - 1], h[k][1], 40) /\ Near(v[2 * k], h[k][2], 40)
      [] prog.obs = "occupation" -> Len(v) = 1 /\ ObsNear(v[1], P!SiteOccupation(prog.o[1], h))
      [] prog.obs = "jump" -> Len(v) = 1 /\ ObsNear(v[1], P!FermiJump(prog.o[1], prog.o[2], prog.n, h))
      \* the second alternative is the recorded finding: the observable takes the one-operator part of an element with
      \* the other sign than the equation of motion
      [] OTHER -> Len(v) = 1 /\ (ObsNear(v[1], P!SiteOccupation(prog.o[1], h)) \/ ObsNear(v[1], P!SiteOccupation(prog.o[2], h)))
Row == /\ IsEvent("row") /\ Holds(TimeOk(Ev.t, Len(rows))) /\ Holds(Observed(Ev.v))
       /\ h' \in {P!Taylor(prog.A, prog.den, prog.dt[1], prog.dt[2], h)}
       /\ rows' = Append(rows, <<Ev.t, Ev.v>>) /\ UNCHANGED prog
\* the momentum program prints its observable before and after eight steps without times
Later == /\ IsEvent("later") /\ Holds(Observed(Ev.v)) /\ rows' = Append(rows, Ev.v) /\ UNCHANGED prog
         /\ h' \in {FoldLeft(LAMBDA a, k : P!Taylor(prog.A, prog.den, prog.dt[1], prog.dt[2], a), h, [k \in 1..Ev.steps |-> k])}
\* the end of a run that observed after every step
Finished == /\ IsEvent("finished") /\ Ev.rows = Len(rows) /\ UNCHANGED <<prog, h, rows>>
            /\ R!RightNumberOfSteps(Len(rows) - 1, Ev.tend[1], Ev.tend[2], prog.dt[1], prog.dt[2], prog.exact)
SameRow(a, b) == /\ Near(a[1], b[1], 1) /\ Len(a[2]) = Len(b[2])
                 /\ \A k \in 1..Len(a[2]) : Near(a[2][k], b[2][k], 1 + Abs(a[2][k]) \div 50000)
Run == /\ IsEvent("run") /\ UNCHANGED <<prog, h, rows>>
       /\ Holds(\E n \in 0..(Len(rows) - 1) :
            /\ R!RightNumberOfSteps(n, Ev.tend[1], Ev.tend[2], prog.dt[1], prog.dt[2], prog.exact)
            /\ LET want == R!MeasuredSteps(n, Ev.interval)
               IN  /\ Len(Ev.rows) = Len(want)
                   /\ \A k \in 1..Len(want) : SameRow(Ev.rows[k], rows[want[k] + 1]))
\* long runs: only the times, in thousandths of a step
Times == /\ IsEvent("times") /\ UNCHANGED <<prog, h, rows>>
         /\ Holds(\E n \in {0, 1} : LET m == R!StepsNeeded(Ev.tend[1], Ev.tend[2], Ev.dt[1], Ev.dt[2]) + n
                                       want == R!MeasuredSteps(m, Ev.interval)
                                   IN  /\ R!RightNumberOfSteps(m, Ev.tend[1], Ev.tend[2], Ev.dt[1], Ev.dt[2], Ev.exact)
                                       /\ Len(Ev.times) = Len(want)
                                       /\ \A k \in 1..Len(want) : Abs(Ev.times[k] - 1000 * want[k]) <= 1)
\* ---- programs without options
\* four coefficients and the particle number of the truncated model, dt = 1/100
TrivialRows == <<<<<<1, 1>>, <<2, -2>>, <<3, -2>>, <<4, 1>>>>, <<<<1, -2>>, <<2, 1>>>>, <<<<1, -2>>, <<3, 1>>>>, <<<<1, 1>>, <<4, 1>>>>>>
TrivialTable == LET pi == InvPi
                    q == S \div 4
                IN  <<<<2 * q, pi, pi, q>>, <<pi, 2 * q, pi, pi \div 2>>, <<pi, pi, 2 * q, pi \div 2>>, <<q, pi \div 2, pi \div 2, q>>>>
Count == IF prog.kind = "none" THEN 0 ELSE prog.n + 1
Trivial == /\ IsEvent("trivial") /\ prog.kind \in {"none", "trivial"}
           /\ Near(Ev.t, 1000 * Count, 1 + Ev.t \div 100000)
           /\ Len(Ev.v) = 10
           \* each row follows from the previous one by one step
           /\ (Len(rows) = 0 => \A k \in 1..8 : Ev.v[k] = (IF k = 1 THEN 100000 ELSE 0))
           /\ Holds(Len(rows) > 0 => LET b == rows[1]
                                         x == P!Taylor(TrivialRows, 2, 1, 100, [k \in 1..4 |-> <<b[2 * k - 1], b[2 * k]>>])
                                     IN  \A k \in 1..4 : Near(Ev.v[2 * k - 1], x[k][1], 6) /\ Near(Ev.v[2 * k], x[k][2], 6))
           /\ Holds(LET x == [k \in 1..4 |-> <<Ev.v[2 * k - 1], Ev.v[2 * k]>>]
                    IN  Near(Ev.v[9], 10 * P!Quadratic(TrivialTable, x), 200) /\ Near(Ev.v[10], 0, 2))
           /\ prog' = [kind |-> "trivial", n |-> Count] /\ h' = h
           /\ rows' = <<Ev.v>>
TrivialEnd == IsEvent("trivialend") /\ prog.kind = "trivial" /\ prog.n = 2000 /\ UNCHANGED <<prog, h, rows>>
\* the Fermi sea is stationary under hopping alone: half filling at all times (until the front has gone around)
Theory == /\ IsEvent("theory") /\ UNCHANGED <<prog, h, rows>>
          /\ Holds(\A k \in 1..Len(Ev.rows) :
                      /\ Near(Ev.rows[k][1], (Ev.first + k - 1) * 1000, 1 + Ev.rows[k][1] \div 50000)
                      /\ Near(Ev.rows[k][2], 50000, 20) /\ Near(Ev.rows[k][3], 0, 2))
\* dispersion -2J cos k over the Brillouin zone [-pi, pi), J = 1; momenta and values times 10^5
Dispersion == /\ IsEvent("dispersion") /\ UNCHANGED <<prog, h, rows>>
              /\ Holds(/\ T!ValidTable(Ev.M, Ev.cos, Ev.sin)
                       /\ Len(Ev.rows) = Ev.M
                       /\ \A k \in 1..Ev.M : /\ Near(Ev.rows[k][1], P!Div((2 * (k - 1) - Ev.M) * 31416, Ev.M) * 10, 30)
                                             /\ Near(Ev.rows[k][2], -20 * T!Cos(Ev.cos, k - 1 + Ev.M \div 2), 60))
TraceNext == Begin \/ Program \/ Row \/ Later \/ Finished \/ Run \/ Times \/ Trivial \/ TrivialEnd \/ Theory \/ Dispersion
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
