------------------------------ MODULE Adjoint ------------------------------
(***************************************************************************)
(* Conjugation and products of terms as object histories, against the      *)
(* Hermitian adjoint on Fock space; conserved charges of a term.           *)
(***************************************************************************)
EXTENDS Fock

\* relations on recorded operators [c, i]
RawAdj(o)     == [c |-> ~o.c, i |-> o.i]
RawAdjSeq(os) == [k \in 1..Len(os) |-> RawAdj(os[Len(os) + 1 - k])]
SameIdx(x, y) == x.i = y.i
IsConj(x, y)  == x.c # y.c /\ x.i = y.i
IsConjSeq(x, y) == y = RawAdjSeq(x)

\* net change of a charge q(index) by a product of operators
Charge(os, q(_)) == FoldLeft(LAMBDA acc, o : IF o.c THEN acc + q(o.i) ELSE acc - q(o.i), 0, os)

\* <T|A|S>
Element(t, S, T) == LET x == ApplyOps(t.ops, S)
                    IN  IF x[1] # 0 /\ x[2] = T THEN CScale(x[1], t.p) ELSE CZero
IsAdjoint(t, u, modes) ==
    \A S, T \in SUBSET modes : Element(u, S, T) = CConj(Element(t, T, S))
-----------------------------------------------------------------------------
CONSTANTS Modes, MaxLen, Prefactors
Ops == [c : BOOLEAN, m : Modes]
OpSeqs == UNION {[1..n -> Ops] : n \in 0..MaxLen}
Terms == {[p |-> p, ops |-> o] : p \in Prefactors, o \in OpSeqs}

VARIABLES x, y, x0, steps, prod
vars == <<x, y, x0, steps, prod>>
Init == x \in Terms /\ y \in Terms /\ x0 = x /\ steps = 0 /\ prod = FALSE
Conjugate == steps < 2 /\ ~prod /\ x' = TAdj(x) /\ steps' = steps + 1 /\ UNCHANGED <<y, x0, prod>>
Multiply  == steps < 2 /\ ~prod /\ x' = TMul(x, y) /\ prod' = TRUE /\ steps' = steps + 1 /\ UNCHANGED <<y, x0>>
Square    == steps < 1 /\ ~prod /\ x' = TMul(x, x) /\ y' = x /\ prod' = TRUE /\ steps' = steps + 1 /\ UNCHANGED x0
Next == Conjugate \/ Multiply \/ Square
Spec == Init /\ [][Next]_vars

AdjointCorrect   == IsAdjoint(x, TAdj(x), ModesOfOps(x.ops))
Involution       == TAdj(TAdj(x)) = x
Antihomomorphism == TAdj(TMul(x, y)) = TMul(TAdj(y), TAdj(x))
\* a product acts as the composition
ProductComposes  ==
    \A S \in SUBSET (ModesOfOps(x.ops) \cup ModesOfOps(y.ops)) :
        LET r == ApplyOps(y.ops, S)
            s == IF r[1] = 0 THEN Vanished
                 ELSE LET t == ApplyOps(x.ops, r[2]) IN IF t[1] = 0 THEN Vanished ELSE <<r[1] * t[1], t[2]>>
        IN  ApplyOps(x.ops \o y.ops, S) = s
\* creation number of a term is the change of the particle number in every state it does not annihilate
Raw(os) == [k \in 1..Len(os) |-> [c |-> os[k].c, i |-> os[k].m]]
ChargeIsChange ==
    \A S \in SUBSET ModesOfOps(x.ops) :
        LET r == ApplyOps(x.ops, S)
        IN  r[1] # 0 => /\ Cardinality(r[2]) - Cardinality(S) = Charge(Raw(x.ops), LAMBDA i : 1)
                        /\ SumSet(r[2]) - SumSet(S) = Charge(Raw(x.ops), LAMBDA i : i)
ChargeFlips == Charge(Raw(TAdj(x).ops), LAMBDA i : i) = -Charge(Raw(x.ops), LAMBDA i : i)
=============================================================================
