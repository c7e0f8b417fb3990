--------------------------- MODULE LiouvillianModel ---------------------------
(* Checks the closed forms of Liouvillian against the commutator, and the   *)
(* Wick components against traces on Fock space.                            *)
EXTENDS Liouvillian
CONSTANTS Rings, Params, TraceRings
VARIABLES n, e, par, what
vars == <<n, e, par, what>>
Ring(m) == [i \in 1..m |-> <<i % m, (i + m - 2) % m>>]
Els(m) == {One(i) : i \in 0..(m - 1)} \cup {Three(t[1], t[2], t[3]) : t \in (0..(m - 1)) \X (0..(m - 1)) \X (0..(m - 1))}
Half(a, b) == IF a = b THEN 1 ELSE 0
\* translation invariant symmetric functions of the ring distance, given times 4
RDist(a, b) == LET k == IF a > b THEN a - b ELSE b - a IN IF n - k < k THEN n - k ELSE k
Table == <<2, 1, -3, 2>>
Quarter(a, b) == Table[RDist(a, b) + 1]
\* translation invariant, not symmetric
Skewed == <<2, 1, -3, 2, 4>>
Skew(a, b) == Skewed[((b - a + n) % n) + 1]
Init == /\ what \in {"orthogonal", "normal", "skew", "trace"} /\ n \in (IF what = "trace" THEN TraceRings ELSE Rings)
        /\ par \in Params
        \* translation invariance: elements whose first site is 0 suffice on larger rings
        /\ e \in {x \in Els(n) : what = "trace" \/ n <= 3 \/ x[1][2] = 0}
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Same(f, g) == \A x \in DOMAIN f \cup DOMAIN g :
                 (IF x \in DOMAIN f THEN f[x] ELSE 0) = (IF x \in DOMAIN g THEN g[x] ELSE 0)
\* normal ordered elements: Den = 4; CommutatorRow carries Den^4 (one from the element, three from contractions)
ClosedForm(G(_, _)) ==
    LET full == CommutatorRow(G, 4, Ring(n), par[1], par[2], e)
        list == NormalOrderedRow(G, 4, Ring(n), par[1], par[2], e)
        mine == Sum2([k \in 1..Len(list) |-> <<list[k][1], 16 * list[k][2]>>])
    IN  Same(full, mine)
NormalOrderedCorrect == /\ what = "normal" => ClosedForm(Quarter)
                        /\ what = "skew" => ClosedForm(Skew)
\* orthogonal elements: B3 = 2 :c+c+c: at g = delta/2
Scale(x) == IF Len(x) = 1 THEN 1 ELSE 2
OrthogonalCorrect == what = "orthogonal" =>
    LET full == CommutatorRow(Half, 2, Ring(n), par[1], par[2], e)
        list == OrthogonalRow(Ring(n), par[1], par[2], e)
        mine == Sum2(list)
    IN  \* [H, B_e] = sum L B  with  B = Scale * :element:
        Same([x \in DOMAIN full |-> full[x] * Scale(e)], [x \in DOMAIN mine |-> mine[x] * Scale(x) * 16])
\* ---- the same as traces on Fock space
Mode(o) == 1 + o[2] + (IF o[3] THEN 0 ELSE n)
SignOf(S, m) == IF Cardinality({j \in S : j < m}) % 2 = 0 THEN 1 ELSE -1
Act(o, x) == IF x[1] = 0 THEN x
             ELSE IF o[1] = (Mode(o) \in x[2]) THEN <<0, {}>>
             ELSE <<x[1] * SignOf(x[2], Mode(o)), IF o[1] THEN x[2] \cup {Mode(o)} ELSE x[2] \ {Mode(o)}>>
TraceOf(ops) == MapThenSumSet(LAMBDA S : LET x == FoldRight(Act, ops, <<1, S>>) IN IF x[2] = S THEN x[1] ELSE 0,
                              SUBSET (1..(2 * n)))
AdjPoly(p) == [k \in 1..Len(p) |-> [p |-> p[k].p, ops |-> [j \in 1..Len(p[k].ops) |-> Adj1(p[k].ops[Len(p[k].ops) + 1 - j])]]]
Overlap(x, y) == \* trace of x y
    FoldLeft(LAMBDA a, q : a + x[q[1]].p * y[q[2]].p * TraceOf(x[q[1]].ops \o y[q[2]].ops), 0,
             SetToSeq((1..Len(x)) \X (1..Len(y))))
\* every component of the row is the trace overlap with the element, and the elements are orthonormal (times a constant)
Orth(x) == IF Len(x) = 1 THEN <<[p |-> 1, ops |-> x]>>
           ELSE <<[p |-> 2, ops |-> x]>> \o (IF x[2][2] = x[3][2] THEN <<[p |-> -1, ops |-> <<x[1]>>]>> ELSE <<>>)
TraceCorrect == what = "trace" =>
    LET c == Comm(Ham(Ring(n), par[1], par[2]), Orth(e))
        row == Sum2(OrthogonalRow(Ring(n), par[1], par[2], e))
        norm == TraceOf(<<Adj1(One(0)[1]), One(0)[1]>>)
    IN  \A x \in Els(n) :
            /\ Overlap(AdjPoly(Orth(x)), c) = norm * (IF x \in DOMAIN row THEN row[x] ELSE 0)
            /\ Overlap(AdjPoly(Orth(x)), Orth(e)) = (IF x = e THEN norm ELSE 0)
=============================================================================
