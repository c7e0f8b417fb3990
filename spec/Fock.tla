-------------------------------- MODULE Fock --------------------------------
(***************************************************************************)
(* Occupation-number semantics of fermionic operators.                     *)
(*                                                                         *)
(* A mode is a positive integer.  An operator is a record [c, m]: c = TRUE *)
(* creates, c = FALSE annihilates a particle in mode m.  A basis state is  *)
(* the set of occupied modes; applying an operator gives <<sign, state>>   *)
(* with sign 0 when the state vanishes (Jordan-Wigner sign convention).    *)
(* A term is a record [p, ops] with a Gaussian integer p = <<re, im>> and  *)
(* a sequence of operators; a polynomial is a sequence of terms.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

\* ---- Gaussian integers
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CSub(a, b) == <<a[1] - b[1], a[2] - b[2]>>
CMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
CConj(a)   == <<a[1], -a[2]>>
CNeg(a)    == <<-a[1], -a[2]>>
CScale(s, a) == <<s * a[1], s * a[2]>>
CZero == <<0, 0>>
COne  == <<1, 0>>

\* ---- operators on basis states
ModeSign(S, m) == IF Cardinality({j \in S : j < m}) % 2 = 0 THEN 1 ELSE -1

Vanished == <<0, {}>>

ApplyOp(op, x) ==
    IF x[1] = 0 THEN x
    ELSE IF op.c THEN (IF op.m \in x[2] THEN Vanished
                       ELSE <<x[1] * ModeSign(x[2], op.m), x[2] \cup {op.m}>>)
    ELSE (IF op.m \in x[2] THEN <<x[1] * ModeSign(x[2], op.m), x[2] \ {op.m}>>
          ELSE Vanished)

\* a product acts rightmost operator first
ApplyOps(ops, S) == FoldRight(ApplyOp, ops, <<1, S>>)

ModesOfOps(ops) == {ops[i].m : i \in 1..Len(ops)}
ModesOf(poly)   == UNION {ModesOfOps(poly[i].ops) : i \in 1..Len(poly)}

\* ---- does a polynomial annihilate |S> ?
ZeroOn(poly, S) ==
    LET x == [i \in 1..Len(poly) |-> ApplyOps(poly[i].ops, S)]
        live == {i \in 1..Len(poly) : x[i][1] # 0}
        targets == {x[i][2] : i \in live}
    IN  \A t \in targets :
            LET here == {i \in live : x[i][2] = t}
            IN  /\ MapThenSumSet(LAMBDA i : x[i][1] * poly[i].p[1], here) = 0
                /\ MapThenSumSet(LAMBDA i : x[i][1] * poly[i].p[2], here) = 0

\* a polynomial is the zero operator iff it annihilates every basis state of the modes it touches
IsZeroOperator(poly) == \A S \in SUBSET ModesOf(poly) : ZeroOn(poly, S)

PNeg(poly) == [i \in 1..Len(poly) |-> [p |-> CNeg(poly[i].p), ops |-> poly[i].ops]]
TMul(a, b) == [p |-> CMul(a.p, b.p), ops |-> a.ops \o b.ops]
PMul(x, y) ==
    [k \in 1..(Len(x) * Len(y)) |-> TMul(x[((k - 1) \div Len(y)) + 1], y[((k - 1) % Len(y)) + 1])]

\* equality of the operators denoted by two polynomials
SameOperator(x, y) == IsZeroOperator(x \o PNeg(y))

\* A B - B A
Commutator(a, b) == <<TMul(a, b), [p |-> CNeg(CMul(b.p, a.p)), ops |-> b.ops \o a.ops]>>

\* adjoint
OpAdj(o)   == [c |-> ~o.c, m |-> o.m]
OpsAdj(ops) == [i \in 1..Len(ops) |-> OpAdj(ops[Len(ops) + 1 - i])]
TAdj(t)    == [p |-> CConj(t.p), ops |-> OpsAdj(t.ops)]
PAdj(poly) == [i \in 1..Len(poly) |-> TAdj(poly[i])]

\* ---- operators as they occur in traces: [c, i] with a tuple of index values
IdxSet(polys) == UNION {{t.ops[j].i : j \in 1..Len(t.ops)} : t \in polys}
Numbering(idx) == LET s == SetToSeq(idx) IN [x \in idx |-> CHOOSE k \in 1..Len(s) : s[k] = x]
OpsToModes(ops, num) == [j \in 1..Len(ops) |-> [c |-> ops[j].c, m |-> num[ops[j].i]]]
TToModes(t, num) == [p |-> t.p, ops |-> OpsToModes(t.ops, num)]
PToModes(poly, num) == [k \in 1..Len(poly) |-> TToModes(poly[k], num)]
=============================================================================
