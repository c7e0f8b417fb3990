------------------------------- MODULE FermiJump -------------------------------
(***************************************************************************)
(* Fermi-jump observables: objects are created for a lattice and a momentum *)
(* (in quarter turns per site), may be copied, and are evaluated for        *)
(* coefficient vectors.  An evaluation sums the normal-ordered one-operator *)
(* coefficients site by site in a scratch vector of its own; evaluations of *)
(* several objects may overlap in time.                                     *)
(***************************************************************************)
EXTENDS Liouvillian
\* ---- semantics (complex integers <<re, im>>)
CPlus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
CTimes(x, a) == <<x * a[1], x * a[2]>>
Turn(k, a) == CASE k % 4 = 0 -> a [] k % 4 = 1 -> <<-a[2], a[1]>> [] k % 4 = 2 -> <<-a[1], -a[2]>> [] OTHER -> <<a[2], -a[1]>>
SqNorm(a) == a[1] * a[1] + a[2] * a[2]
\* vector: first the n one-operator, then the n^3 three-operator coefficients; i, j, k count from 0
At3(v, n, i, j, k) == v[n + i * n * n + j * n + k + 1]
\* Den times the coefficient of c+_i after normal ordering
Amp(G(_, _), Den, n, v, i) ==
    IF Len(v) = n THEN CTimes(Den, v[i + 1])
    ELSE FoldLeft(CPlus, CTimes(Den, v[i + 1]),
                  [x \in 1..(n * n) |-> LET j == (x - 1) \div n
                                            k == (x - 1) % n
                                        IN  CTimes(2 * G(j, k) - (IF j = k THEN Den ELSE 0), At3(v, n, i, j, k))])
\* Den^2 times the jump; phase[i] in quarter turns
Jump(G(_, _), Den, n, v, phase) == SqNorm(FoldLeft(CPlus, <<0, 0>>, [i \in 1..n |-> Turn(phase[i], Amp(G, Den, n, v, i - 1))]))
\* the normal-ordered and one-operator forms use the coefficients as they are
PlainJump(n, v, phase) == SqNorm(FoldLeft(CPlus, <<0, 0>>, [i \in 1..n |-> Turn(phase[i], v[i])]))
\* ---- the same from Wick's theorem: one-operator components of sum v_i c+_i + sum v_ijk (2 c+c+c - delta c+)
WickAmp(G(_, _), Den, n, v, i) ==
    LET poly(e) == IF Len(e) = 1 THEN <<[p |-> 1, ops |-> e]>>
                   ELSE <<[p |-> 2, ops |-> e]>> \o (IF e[2][2] = e[3][2] THEN <<[p |-> -1, ops |-> <<e[1]>>]>> ELSE <<>>)
        els == [x \in 1..n |-> One(x - 1)] \o
               [x \in 1..(n * n * n) |-> Three((x - 1) \div (n * n), ((x - 1) \div n) % n, (x - 1) % n)]
        comp(e) == FoldLeft(LAMBDA a, t : a + t.p * (IF Len(t.ops) = 1 THEN Den ELSE 1) *
                       FoldLeft(LAMBDA b, w : b + (IF w.ops = One(i) THEN w.p ELSE 0), 0, Wick(G, Den, t.ops, 1)), 0, poly(e))
    IN  FoldLeft(CPlus, <<0, 0>>, [x \in 1..Len(els) |-> CTimes(comp(els[x]), v[x])])
-----------------------------------------------------------------------------
CONSTANTS Sizes, Turns, MaxObjects, Seeds, Shared
VARIABLES objs, runs, scratch, done
vars == <<objs, runs, scratch, done>>
Gm(a, b) == ((a * a + 2 * b + 3 * a * b) % 5) - 2      \* any two-point function, times 3
DenM == 3
VecM(n, seed) == [x \in 1..(n + n * n * n) |-> <<((x * x * seed + x) % 5) - 2, ((x * seed + x * x * x) % 3) - 1>>]
Phases(o) == [i \in 1..o.n |-> o.m * (i - 1)]
\* two evaluations may be active
Slots == {1, 2}
Idle == [o |-> 0, seed |-> 0, i |-> 0]
Init == objs = <<>> /\ runs = [s \in Slots |-> Idle] /\ scratch = [s \in Slots |-> <<>>] /\ done = {}
Make == /\ Len(objs) < MaxObjects /\ \E n \in Sizes, m \in Turns : objs' = Append(objs, [n |-> n, m |-> m])
        /\ UNCHANGED <<runs, scratch, done>>
Copy == /\ Len(objs) < MaxObjects /\ Len(objs) > 0 /\ objs' = Append(objs, objs[Len(objs)])
        /\ UNCHANGED <<runs, scratch, done>>
\* a scratch vector of the evaluation (Shared = FALSE) or one of the function, sized once (Shared = TRUE)
Cell(s) == IF Shared THEN 1 ELSE s
Begin == \E s \in Slots, o \in 1..Len(objs), seed \in Seeds :
             /\ runs[s] = Idle /\ Cardinality(done) < 3
             /\ runs' = [runs EXCEPT ![s] = [o |-> o, seed |-> seed, i |-> 1]]
             /\ scratch' = (IF Shared /\ scratch[1] # <<>> THEN scratch ELSE [scratch EXCEPT ![Cell(s)] = [i \in 1..objs[o].n |-> <<0, 0>>]])
             /\ UNCHANGED <<objs, done>>
Site == \E s \in Slots :
             LET r == runs[s]
             IN  /\ r.o # 0 /\ r.i <= objs[r.o].n
                 /\ scratch' = [scratch EXCEPT ![Cell(s)] =
                       IF r.i <= Len(@) THEN [@ EXCEPT ![r.i] = Amp(Gm, DenM, objs[r.o].n, VecM(objs[r.o].n, r.seed), r.i - 1)] ELSE @]
                 /\ runs' = [runs EXCEPT ![s].i = @ + 1] /\ UNCHANGED <<objs, done>>
Finish == \E s \in Slots :
             LET r == runs[s]
                 o == objs[r.o]
             IN  /\ r.o # 0 /\ r.i > o.n
                 /\ done' = done \cup {[o |-> r.o, seed |-> r.seed,
                       val |-> SqNorm(FoldLeft(CPlus, <<0, 0>>, [i \in 1..Min({o.n, Len(scratch[Cell(s)])}) |-> Turn(o.m * (i - 1), scratch[Cell(s)][i])]))]}
                 /\ runs' = [runs EXCEPT ![s] = Idle] /\ UNCHANGED <<objs, scratch>>
Next == Make \/ Copy \/ Begin \/ Site \/ Finish
Spec == Init /\ [][Next]_vars
DependsOnArgumentsOnly == \A d \in done : d.val = Jump(Gm, DenM, objs[d.o].n, VecM(objs[d.o].n, d.seed), Phases(objs[d.o]))
IsWickAmplitude == done = {} /\ runs[1] = Idle /\ runs[2] = Idle =>
  \A x \in 1..Len(objs), seed \in Seeds : LET n == objs[x].n IN
    \A i \in 0..(n - 1) : Amp(Gm, DenM, n, VecM(n, seed), i) = WickAmp(Gm, DenM, n, VecM(n, seed), i)
=============================================================================
