---------------------------- MODULE SiteOccupation ----------------------------
(***************************************************************************)
(* The site occupation <n(t)> for an operator sum B = sum_a v_a B_a, with  *)
(* B_a = c+_i (one operator) or 2 c+_i c+_j c_k - delta_jk c+_i: the        *)
(* expectation value <B B+> in a free-fermion state with two-point          *)
(* function g(a, b) = Den <c+_a c_b> (the same for both spins).             *)
(*                                                                         *)
(* PairValue is Den^3 times 2 <B_a B_b+> in closed form; Exact derives it   *)
(* from Wick's theorem (Liouvillian!Wick).  The model accumulates the sum   *)
(* pair by pair, in full or exploiting symmetry, for Slater determinants    *)
(* psi, and compares the total with the squared norm of B+ psi on Fock      *)
(* space.                                                                   *)
(***************************************************************************)
EXTENDS Liouvillian
Same(i, j, x) == IF i = j THEN x ELSE 0
PairValue(G(_, _), Den, a, b) ==     \* a, b: basis elements; b enters as its adjoint
    LET g1 == G(a[1][2], b[1][2])
    IN  CASE Len(a) = 1 /\ Len(b) = 1 -> 2 * Den * Den * g1
          [] Len(a) = 1 /\ Len(b) = 3 -> 2 * Den * g1 * (2 * G(b[3][2], b[2][2]) - Same(b[2][2], b[3][2], Den))
          [] Len(a) = 3 /\ Len(b) = 1 -> 2 * Den * g1 * (2 * G(a[2][2], a[3][2]) - Same(a[2][2], a[3][2], Den))
          [] OTHER -> LET x == 2 * G(a[2][2], a[3][2]) - Same(a[2][2], a[3][2], Den)
                          y == 2 * G(b[3][2], b[2][2]) - Same(b[2][2], b[3][2], Den)
                      IN  2 * g1 * (x * y + 4 * G(a[2][2], b[2][2]) * (Same(a[3][2], b[3][2], Den) - G(b[3][2], a[3][2])))
Orthogonal(e) == IF Len(e) = 1 THEN <<[p |-> 1, ops |-> e]>>
                 ELSE <<[p |-> 2, ops |-> e]>> \o (IF e[2][2] = e[3][2] THEN <<[p |-> -1, ops |-> <<e[1]>>]>> ELSE <<>>)
Dag(p) == [k \in 1..Len(p) |-> [p |-> p[k].p, ops |-> [j \in 1..Len(p[k].ops) |-> Adj1(p[k].ops[Len(p[k].ops) + 1 - j])]]]
\* Den^3 * 2 <B_a B_b+> by Wick's theorem
Exact(G(_, _), Den, a, b) ==
    LET x == Orthogonal(a)
        y == Dag(Orthogonal(b))
        val(ops) == FoldLeft(LAMBDA s, t : s + t.p, 0, Wick(G, Den, ops, 0)) * Pow(Den, 3 - (Len(ops) \div 2))
    IN  FoldLeft(LAMBDA s, q : s + 2 * x[q[1]].p * y[q[2]].p * val(x[q[1]].ops \o y[q[2]].ops), 0,
                 SetToSeq((1..Len(x)) \X (1..Len(y))))
\* Den^3 times the observable for a vector of <<re, im>> (symmetric g)
Total(G(_, _), Den, els, v) ==
    LET ks == {k \in 1..Len(els) : v[k] # <<0, 0>>}
    IN  MapThenSumSet(LAMBDA k : MapThenSumSet(LAMBDA j :
            PairValue(G, Den, els[k], els[j]) * (v[k][1] * v[j][1] + v[k][2] * v[j][2]), ks), ks) \div 2
-----------------------------------------------------------------------------
CONSTANTS N, Orbitals, Vectors     \* sets of orbital lists and of coefficient vectors (seeds)
VARIABLES orb, vec, mode, k, j, acc
vars == <<orb, vec, mode, k, j, acc>>
EN == [i \in 1..N |-> One(i - 1)]
Els == EN \o [x \in 1..(N * N * N) |-> Three((x - 1) \div (N * N), ((x - 1) \div N) % N, (x - 1) % N)]
Modes == 1..(2 * N)
ModeOf(o) == 1 + o[2] + (IF o[3] THEN 0 ELSE N)
Below(S, m) == IF Cardinality({x \in S : x < m}) % 2 = 0 THEN 1 ELSE -1
ActOn(o, f) ==      \* operator on a vector of amplitudes
    [S \in SUBSET Modes |->
        LET m == ModeOf(o)
            T == IF o[1] THEN S \ {m} ELSE S \cup {m}
        IN  IF o[1] = (m \in S) THEN f[T] * Below(T, m) ELSE 0]
Plus(f, g) == [S \in SUBSET Modes |-> f[S] + g[S]]
Times(c, f) == [S \in SUBSET Modes |-> c * f[S]]
Zero == [S \in SUBSET Modes |-> 0]
Vacuum == [S \in SUBSET Modes |-> IF S = {} THEN 1 ELSE 0]
Fill(o, s, f) == FoldLeft(LAMBDA a, i : Plus(a, Times(o[i], ActOn(<<TRUE, i - 1, s>>, f))), Zero, [i \in 1..N |-> i])
Psi(os) == FoldLeft(LAMBDA f, o : Fill(o, FALSE, Fill(o, TRUE, f)), Vacuum, os)
Dot(f, g) == MapThenSumSet(LAMBDA S : f[S] * g[S], SUBSET Modes)
ActOps(ops, f) == FoldRight(ActOn, ops, f)
\* everything that is derived from the orbitals is computed once, in the initial state
Den0(os) == Dot(Psi(os), Psi(os))
Table(os) == LET p == Psi(os) IN [a \in 0..(N - 1) |-> [b \in 0..(N - 1) |-> Dot(p, ActOps(<<<<TRUE, a, TRUE>>, <<FALSE, b, TRUE>>>>, p))]]
\* deterministic pseudo random vectors
Vec(seed) == [x \in 1..Len(Els) |-> <<((x * x * seed + 3 * x) % 5) - 2, ((x * seed + x * x * x) % 3) - 1>>]
Init == /\ orb \in {[os |-> os, den |-> Den0(os), g |-> Table(os)] : os \in Orbitals}
        /\ vec \in {Vec(s) : s \in Vectors} /\ mode \in {"full", "symmetric"}
        /\ k = 1 /\ j = 1 /\ acc = 0
Gf(a, b) == orb.g[a][b]
Len3(x) == Len(Els[x]) = 3
\* twice the accumulated value
Re(a, b) == vec[a][1] * vec[b][1] + vec[a][2] * vec[b][2]
Advance(last) == IF j < last THEN j' = j + 1 /\ k' = k ELSE j' = 1 /\ k' = k + 1
Full == /\ mode = "full" /\ k <= Len(Els)
        /\ acc' = acc + PairValue(Gf, orb.den, Els[k], Els[j]) * Re(k, j)
        /\ Advance(Len(Els)) /\ UNCHANGED <<orb, vec, mode>>
\* lower triangle, twice; the diagonal once
Diagonal == /\ mode = "symmetric" /\ k <= Len(Els) /\ j = k
            /\ acc' = acc + PairValue(Gf, orb.den, Els[k], Els[k]) * Re(k, k)
            /\ Advance(k) /\ UNCHANGED <<orb, vec, mode>>
Below2 == /\ mode = "symmetric" /\ k <= Len(Els) /\ j < k
          \* one- and three-operator elements: only one of the two orders is evaluated
          /\ acc' = acc + 2 * Re(k, j) * (IF Len3(k) /\ ~Len3(j) THEN PairValue(Gf, orb.den, Els[j], Els[k])
                                          ELSE PairValue(Gf, orb.den, Els[k], Els[j]))
          /\ Advance(k) /\ UNCHANGED <<orb, vec, mode>>
Next == Full \/ Diagonal \/ Below2
Spec == Init /\ [][Next]_vars
Normal(os) == LET p == Psi(os)
                  B(c) == FoldLeft(LAMBDA a, x : IF vec[x][c] = 0 THEN a ELSE
                            FoldLeft(LAMBDA b, t : Plus(b, Times(vec[x][c] * t.p, ActOps(t.ops, p))), a, Dag(Orthogonal(Els[x]))),
                            Zero, [x \in 1..Len(Els) |-> x])
              IN  Dot(B(1), B(1)) + Dot(B(2), B(2))
\* acc / 2 = Den^3 <B B+> = Den^2 |B+ psi|^2
IsSquaredNorm == k > Len(Els) => acc = 2 * orb.den * orb.den * Normal(orb.os)
PairsByWick == mode = "full" /\ k <= Len(Els) =>
    /\ PairValue(Gf, orb.den, Els[k], Els[j]) = Exact(Gf, orb.den, Els[k], Els[j])
    /\ PairValue(Gf, orb.den, Els[k], Els[j]) = PairValue(Gf, orb.den, Els[j], Els[k])
=============================================================================
