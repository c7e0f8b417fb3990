-------------------------------- MODULE Program --------------------------------
(***************************************************************************)
(* What the simulation programs compute: the coefficients start with the    *)
(* first element of the basis and take one fourth-order step per time step; *)
(* the observable is the site occupation, the Fermi jump or the particle     *)
(* number of the state.  Numbers are fixed-point: coefficients times SC,    *)
(* two-point functions, observables and trigonometric tables times S.       *)
(***************************************************************************)
EXTENDS Liouvillian
S == 10000
SC == 100000
Div(x, y) == (2 * x + y) \div (2 * y)          \* rounded
FMul(x, y) == Div(x * y, S)
Kron(a, b, x) == IF a = b THEN x ELSE 0
\* ---- elements of the bases, sites and momenta from 0
Els1(n) == [x \in 1..n |-> One(x - 1)]
Els3(n) == Els1(n) \o [x \in 1..(n * n * n) |-> Three((x - 1) \div (n * n), ((x - 1) \div n) % n, (x - 1) % n)]
ElsM(n, q) == <<One(q)>> \o [x \in 1..(n * n) |-> LET a == (x - 1) \div n
                                                     b == (x - 1) % n
                                                 IN  Three(a, b, (a + b + n - q) % n)]
Ring(n) == [i \in 1..n |-> <<i % n, (i + n - 2) % n>>]
Torus(nx, ny) == [i \in 1..(nx * ny) |->
    LET x == (i - 1) % nx
        y == (i - 1) \div nx
    IN  <<((x + 1) % nx) + nx * y, ((x + nx - 1) % nx) + nx * y, x + nx * ((y + 1) % ny), x + nx * ((y + ny - 1) % ny)>>]
\* sparse rows <<<<column, value>>, ...>> of the equation of motion
\* place of an element of Els1(n), Els3(n)
At(n, e) == IF Len(e) = 1 THEN e[1][2] + 1 ELSE n + e[1][2] * n * n + e[2][2] * n + e[3][2] + 1
Sparse(n, els, row(_)) ==
    LET one(k) == LET f == TLCEval(Sum2(TLCEval(row(els[k])))) IN SetToSeq({<<At(n, e), f[e]>> : e \in DOMAIN f})
    IN  [k \in 1..Len(els) |-> one(k)]
\* ---- one step of width p/q: sum of (i dt L)^m h / m!, L = A / den
IL(A, den, p, q, m, h) ==
    [k \in 1..Len(h) |->
        LET re == FoldLeft(LAMBDA a, x : a + x[2] * h[x[1]][1], 0, A[k])
            im == FoldLeft(LAMBDA a, x : a + x[2] * h[x[1]][2], 0, A[k])
        IN  <<Div(-im * p, q * m * den), Div(re * p, q * m * den)>>]
Taylor(A, den, p, q, h) ==
    LET w0 == TLCEval(h)
        w1 == TLCEval(IL(A, den, p, q, 1, w0))
        w2 == TLCEval(IL(A, den, p, q, 2, w1))
        w3 == TLCEval(IL(A, den, p, q, 3, w2))
        w4 == TLCEval(IL(A, den, p, q, 4, w3))
    IN  [k \in 1..Len(w0) |-> <<w0[k][1] + w1[k][1] + w2[k][1] + w3[k][1] + w4[k][1],
                               w0[k][2] + w1[k][2] + w2[k][2] + w3[k][2] + w4[k][2]>>]
Start(n) == [k \in 1..n |-> IF k = 1 THEN <<SC, 0>> ELSE <<0, 0>>]
Coarse(h) == [k \in 1..Len(h) |-> <<Div(h[k][1], SC \div S), Div(h[k][2], SC \div S)>>]
\* ---- observables of h (times S); g[a+1][b+1] two-point function times S
X(g, j, k) == 2 * g[j + 1][k + 1] - Kron(j, k, S)
Pair(g, a, b) ==       \* 2 <B_a B_b+>
    LET g1 == 2 * g[a[1][2] + 1][b[1][2] + 1]
    IN  CASE Len(a) = 1 /\ Len(b) = 1 -> g1
          [] Len(a) = 1 /\ Len(b) = 3 -> FMul(g1, X(g, b[3][2], b[2][2]))
          [] Len(a) = 3 /\ Len(b) = 1 -> FMul(g1, X(g, a[2][2], a[3][2]))
          [] OTHER -> FMul(g1, FMul(X(g, a[2][2], a[3][2]), X(g, b[3][2], b[2][2]))
                              + 4 * FMul(g[a[2][2] + 1][b[2][2] + 1], Kron(a[3][2], b[3][2], S) - g[b[3][2] + 1][a[3][2] + 1]))
Pairs(g, els) == [a \in 1..Len(els) |-> [b \in 1..Len(els) |-> Pair(g, els[a], els[b])]]
Quadratic(P, h) ==
    LET v == TLCEval(Coarse(h))
        at == TLCEval([b \in 1..Len(v) |-> b])
        y(a, c) == FoldLeft(LAMBDA s, b : s + (IF P[a][b] = 0 \/ v[b][c] = 0 THEN 0 ELSE FMul(P[a][b], v[b][c])), 0, at)
    IN  FoldLeft(LAMBDA s, a : s + (IF v[a][1] = 0 THEN 0 ELSE FMul(v[a][1], y(a, 1))) + (IF v[a][2] = 0 THEN 0 ELSE FMul(v[a][2], y(a, 2))), 0, at)
SiteOccupation(P, h) == Div(Quadratic(P, h), 2)
\* phases[i] = <<cos, sin>> of site i
FermiJump(g, phases, n, h) ==
    LET v == TLCEval(Coarse(h))
        ws == TLCEval([x \in 1..(n * n) |-> X(g, (x - 1) \div n, (x - 1) % n)])
        amp(i, c) == FoldLeft(LAMBDA s, x : LET w == ws[x]
                                            IN  IF w = 0 THEN s ELSE s + FMul(w, v[n + (i - 1) * n * n + x][c]), v[i][c],
                              IF Len(h) = n THEN <<>> ELSE [x \in 1..(n * n) |-> x])
        tot == FoldLeft(LAMBDA s, i : LET a == amp(i, 1)
                                          b == amp(i, 2)
                                      IN  <<s[1] + FMul(phases[i][1], a) - FMul(phases[i][2], b),
                                            s[2] + FMul(phases[i][1], b) + FMul(phases[i][2], a)>>, <<0, 0>>, [i \in 1..n |-> i])
    IN  FMul(tot[1], tot[1]) + FMul(tot[2], tot[2])
-----------------------------------------------------------------------------
(* Model: a fixed-point run next to the conserved quantities of the exact evolution. *)
CONSTANTS N, Js, Us, Widths, MaxSteps, Gs
VARIABLES J, U, w, g, A, P, h, n
vars == <<J, U, w, g, A, P, h, n>>
Els == Els3(N)
O == INSTANCE SiteOccupation WITH Orbitals <- {}, Vectors <- {}, orb <- 0, vec <- 0, mode <- 0, k <- 0, j <- 0, acc <- 0
Init == /\ J \in Js /\ U \in Us /\ w \in Widths /\ g \in Gs
        /\ A \in {Sparse(N, Els, LAMBDA e : OrthogonalRow(Ring(N), J, U, e))}
        /\ P \in {Pairs(g, Els)}
        /\ h = Start(Len(Els)) /\ n = 0
Step == /\ n < MaxSteps /\ n' = n + 1
        /\ h' \in {Taylor(A, 1, w[1], w[2], h)}
        /\ UNCHANGED <<J, U, w, g, A, P>>
Next == Step
Spec == Init /\ [][Next]_vars
\* the orthogonal elements have the same norm, so the exact evolution preserves the sum of squares
Norm == LET v == Coarse(h) IN FoldLeft(LAMBDA s, x : s + FMul(x[1], x[1]) + FMul(x[2], x[2]), 0, v)
NormKept == Norm - S \in (-60)..60
\* the fixed-point pair values are the exact ones for multiples of S/4
QuarterG(a, b) == g[a + 1][b + 1] \div (S \div 4)
Places == n = 0 => \A k \in 1..Len(Els) : At(N, Els[k]) = k
PairsExact == n = 0 => \A a, b \in 1..Len(Els) :
    O!PairValue(QuarterG, 4, Els[a], Els[b]) * S = 64 * P[a][b]
\* a uniform two-point function S delta / 2 (infinite temperature) gives the norm
Uniform == (\A a, b \in 1..N : g[a][b] = Kron(a, b, S \div 2)) =>
    SiteOccupation(P, h) - Div(Norm, 2) \in (-60)..60
=============================================================================
