----------------------------- MODULE Commutator -----------------------------
(***************************************************************************)
(* The commutator algorithm as the implementation performs it: one step    *)
(* per pair (k, l) of operators, which either cannot be contracted or      *)
(* yields one term.  Checked against A B - B A on Fock space.              *)
(***************************************************************************)
EXTENDS Fock

CONSTANTS Modes, MaxLen, Prefactors

Ops == [c : BOOLEAN, m : Modes]
OpSeqs == UNION {[1..n -> Ops] : n \in 0..MaxLen}

VARIABLES a, b, k, q, out
vars == <<a, b, k, q, out>>

Domain(x, y) == (Len(x) * Len(y)) % 2 = 0

Init == /\ a \in {[p |-> p, ops |-> o] : p \in Prefactors, o \in OpSeqs}
        /\ b \in {[p |-> <<1, 1>>, ops |-> o] : o \in OpSeqs}
        /\ Domain(a.ops, b.ops)
        /\ k = 1 /\ q = 1 /\ out = <<>>

n == Len(a.ops)
m == Len(b.ops)
Done == k > n \/ m = 0
Contractible == a.ops[k].c # b.ops[q].c /\ a.ops[k].m = b.ops[q].m
Advance == IF q = m THEN k' = k + 1 /\ q' = 1 ELSE k' = k /\ q' = q + 1

NewTerm ==
    [p |-> CScale(IF (m * (n - k) + q - 1) % 2 = 0 THEN 1 ELSE -1, CMul(a.p, b.p)),
     ops |-> SubSeq(a.ops, 1, k - 1) \o SubSeq(b.ops, 1, q - 1)
             \o SubSeq(b.ops, q + 1, m) \o SubSeq(a.ops, k + 1, n)]

Contract == ~Done /\ Contractible /\ out' = Append(out, NewTerm) /\ Advance /\ UNCHANGED <<a, b>>
Skip     == ~Done /\ ~Contractible /\ Advance /\ UNCHANGED <<a, b, out>>
Next == Contract \/ Skip
Spec == Init /\ [][Next]_vars

Correct == Done => IsZeroOperator(out \o PNeg(Commutator(a, b)))
=============================================================================
