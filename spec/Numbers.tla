-------------------------------- MODULE Numbers --------------------------------
(***************************************************************************)
(* Number helpers on complex integers, and comparison within a tolerance on *)
(* a grid: all values are multiples of a unit, eps and the tolerance are    *)
(* given in units.  The model walks the additions and multiplications that *)
(* the helpers consist of.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
NMul(a, b) == <<a[1] * b[1] - a[2] * b[2], a[1] * b[2] + a[2] * b[1]>>
NConj(a) == <<a[1], -a[2]>>
NPlus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
NReal(a) == <<a[1], 0>>
MulConj(a, b) == NMul(a, NConj(b))
AddProducts(a, b) == 2 * MulConj(a, b)[1]
Mag(x) == IF x < 0 THEN -x ELSE x
\* |a - b| < tol + eps for both parts
Close(a, b, tol, eps) == Mag(a[1] - b[1]) < tol + eps /\ Mag(a[2] - b[2]) < tol + eps
-----------------------------------------------------------------------------
CONSTANTS Parts, Tols
VARIABLES a, b, tol, acc, step
vars == <<a, b, tol, acc, step>>
Init == a \in Parts \X Parts /\ b \in Parts \X Parts /\ tol \in Tols /\ acc = <<0, 0>> /\ step = 0
\* the four products one after the other
Mul == /\ step < 4
       /\ acc' = (CASE step = 0 -> <<a[1] * b[1], 0>>
                    [] step = 1 -> <<acc[1] + a[2] * b[2], acc[2]>>
                    [] step = 2 -> <<acc[1], -a[1] * b[2]>>
                    [] OTHER    -> <<acc[1], acc[2] + b[1] * a[2]>>)
       /\ step' = step + 1 /\ UNCHANGED <<a, b, tol>>
Swap == step = 4 /\ a' = b /\ b' = a /\ step' = 0 /\ acc' = <<0, 0>> /\ UNCHANGED tol
Next == Mul \/ Swap
Spec == Init /\ [][Next]_vars
Product == step = 4 => acc = MulConj(a, b) /\ 2 * acc[1] = AddProducts(a, b)
Algebra == /\ NConj(NConj(a)) = a /\ (NConj(a) = a <=> a[2] = 0)
           /\ NConj(NMul(a, b)) = NMul(NConj(a), NConj(b)) /\ NConj(NPlus(a, b)) = NPlus(NConj(a), NConj(b))
           /\ MulConj(a, b) = NConj(MulConj(b, a)) /\ MulConj(a, a)[2] = 0 /\ MulConj(a, a)[1] >= 0
           /\ NPlus(MulConj(a, b), MulConj(b, a)) = <<AddProducts(a, b), 0>>
           /\ AddProducts(a, b) = AddProducts(b, a)
Tolerance == /\ Close(a, a, tol, 1) /\ (Close(a, b, tol, 1) <=> Close(b, a, tol, 1))
             /\ (Close(a, b, 0, 1) <=> a = b)
             /\ (Close(a, b, tol, 1) => Close(a, b, tol + 1, 1))
             /\ (Close(a, b, tol, 1) <=> Close(NPlus(a, <<-b[1], -b[2]>>), <<0, 0>>, tol, 1))
             /\ (Close(NConj(a), NConj(b), tol, 1) <=> Close(a, b, tol, 1))
=============================================================================
