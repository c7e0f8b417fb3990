---------------------------------- MODULE Rk4 ----------------------------------
(***************************************************************************)
(* Runge-Kutta steps for linear systems u' = A u with step h = p/q.  A step *)
(* computes four stage vectors one after the other (in scratch vectors that *)
(* all integrators use) and then updates u.  Numbers are complex integers;  *)
(* stage vectors are kept multiplied by 1, 2q, 4q^2 and 4q^3.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLCExt
ZPlus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
ZMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
ZTimes(x, a) == <<x * a[1], x * a[2]>>
VPlus(a, b) == TLCEval([i \in 1..Len(a) |-> ZPlus(a[i], b[i])])
VTimes(x, a) == TLCEval([i \in 1..Len(a) |-> ZTimes(x, a[i])])
Apply(A, u) == TLCEval([i \in 1..Len(A) |-> FoldLeft(LAMBDA s, j : IF A[i][j] = <<0, 0>> THEN s ELSE ZPlus(s, ZMul(A[i][j], u[j])), <<0, 0>>, [j \in 1..Len(u) |-> j])])
\* 24 q^4 (1 + hA + (hA)^2/2 + (hA)^3/6 + (hA)^4/24) u
Taylor(A, p, q, u) ==
    LET a1 == Apply(A, u)
        a2 == Apply(A, a1)
        a3 == Apply(A, a2)
        a4 == Apply(A, a3)
    IN  VPlus(VPlus(VPlus(VTimes(24 * q * q * q * q, u), VTimes(24 * p * q * q * q, a1)),
                    VPlus(VTimes(12 * p * p * q * q, a2), VTimes(4 * p * p * p * q, a3))), VTimes(p * p * p * p, a4))
\* the stages
Stage1(A, p, q, u) == Apply(A, u)
Stage2(A, p, q, u, k1) == Apply(A, VPlus(VTimes(2 * q, u), VTimes(p, k1)))
Stage3(A, p, q, u, k2) == Apply(A, VPlus(VTimes(4 * q * q, u), VTimes(p, k2)))
Stage4(A, p, q, u, k3) == Apply(A, VPlus(VTimes(4 * q * q * q, u), VTimes(p, k3)))
Update(p, q, u, k) == VPlus(VPlus(VTimes(24 * q * q * q * q, u), VTimes(4 * p * q * q * q, k[1])),
                            VPlus(VPlus(VTimes(4 * p * q * q, k[2]), VTimes(2 * p * q, k[3])), VTimes(p, k[4])))
-----------------------------------------------------------------------------
CONSTANTS Systems,      \* set of [A, p, q, u]
          Integrators,  \* number of integrators that live at the same time
          Rounds,       \* number of steps of each
          Overlap       \* may steps overlap in time?
VARIABLES sys, stage, k, res, rounds
vars == <<sys, stage, k, res, rounds>>
I == 1..Integrators
Init == /\ sys \in [I -> Systems] /\ stage = [i \in I |-> 0] /\ k = <<<<>>, <<>>, <<>>, <<>>>>
        /\ res = [i \in I |-> <<>>] /\ rounds = [i \in I |-> 0]
Free(i) == Overlap \/ \A j \in I \ {i} : stage[j] = 0
Fits(i, j) == Len(k[j]) = Len(sys[i].u)
Start == \E i \in I : stage[i] = 0 /\ rounds[i] < Rounds /\ Free(i)
         /\ stage' = [stage EXCEPT ![i] = 1] /\ UNCHANGED <<sys, k, res, rounds>>
Stage == \E i \in I : LET s == sys[i] IN
         /\ stage[i] \in 1..4 /\ (stage[i] > 1 => Fits(i, stage[i] - 1))
         /\ k' = [k EXCEPT ![stage[i]] = CASE stage[i] = 1 -> Stage1(s.A, s.p, s.q, s.u)
                                           [] stage[i] = 2 -> Stage2(s.A, s.p, s.q, s.u, k[1])
                                           [] stage[i] = 3 -> Stage3(s.A, s.p, s.q, s.u, k[2])
                                           [] OTHER        -> Stage4(s.A, s.p, s.q, s.u, k[3])]
         /\ stage' = [stage EXCEPT ![i] = @ + 1] /\ UNCHANGED <<sys, res, rounds>>
Finish == \E i \in I : LET s == sys[i] IN
         /\ stage[i] = 5 /\ \A j \in 1..4 : Fits(i, j)
         /\ res' = [res EXCEPT ![i] = Update(s.p, s.q, s.u, k)]
         /\ stage' = [stage EXCEPT ![i] = 0] /\ rounds' = [rounds EXCEPT ![i] = @ + 1] /\ UNCHANGED <<sys, k>>
\* the vector may be replaced by another one between steps
Replace == \E i \in I : \E s \in Systems : /\ stage[i] = 0 /\ rounds[i] < Rounds /\ s # sys[i] /\ Len(s.u) = Len(sys[i].u)
         /\ sys' = [sys EXCEPT ![i] = s] /\ res' = [res EXCEPT ![i] = <<>>] /\ UNCHANGED <<stage, k, rounds>>
Next == Start \/ Stage \/ Finish \/ Replace
Spec == Init /\ [][Next]_vars
IsTaylorStep == \A i \in I : res[i] # <<>> => res[i] = Taylor(sys[i].A, sys[i].p, sys[i].q, sys[i].u)
\* 1x1 systems: the factor is the truncated exponential series
=============================================================================
