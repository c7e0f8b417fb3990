------------------------- MODULE SymbolicCommutator -------------------------
(***************************************************************************)
(* Operators with symbolic indices.  An index tuple has symbolic positions *)
(* (names) and numeric positions (values).  A prefactor is a number times  *)
(* Kronecker deltas between names.  The meaning of a symbolic polynomial   *)
(* is the family of its instances under all assignments of values.         *)
(***************************************************************************)
EXTENDS Fock

\* value assignments use strings so that symbolic and numeric positions mix in one tuple
Values2 == {"u", "v"}
Values3 == {"u", "v", "w"}

NamesOfOps(ops, sym) ==
    {ops[j].i[p] : j \in 1..Len(ops), p \in {x \in 1..Len(sym) : sym[x]}}
NamesOfTerm(t, sym) ==
    NamesOfOps(t.ops, sym) \cup {t.ks[j][1] : j \in 1..Len(t.ks)} \cup {t.ks[j][2] : j \in 1..Len(t.ks)}
NamesOf(poly, sym) == UNION {NamesOfTerm(poly[i], sym) : i \in 1..Len(poly)}

InstTuple(i, sym, f) == [p \in 1..Len(i) |-> IF sym[p] THEN f[i[p]] ELSE i[p]]
InstOps(ops, sym, f) == [j \in 1..Len(ops) |-> [c |-> ops[j].c, i |-> InstTuple(ops[j].i, sym, f)]]
DeltasHold(ks, f) == \A j \in 1..Len(ks) : f[ks[j][1]] = f[ks[j][2]]
InstTerm(t, sym, f) ==
    [p |-> IF DeltasHold(t.ks, f) THEN t.p ELSE CZero, ops |-> InstOps(t.ops, sym, f)]
Inst(poly, sym, f) == [i \in 1..Len(poly) |-> InstTerm(poly[i], sym, f)]

\* product of symbolic terms: numbers multiply, deltas and operators accumulate
STMul(a, b) == [p |-> CMul(a.p, b.p), ks |-> a.ks \o b.ks, ops |-> a.ops \o b.ops]
SPMul(x, y) ==
    [k \in 1..(Len(x) * Len(y)) |-> STMul(x[((k - 1) \div Len(y)) + 1], y[((k - 1) % Len(y)) + 1])]
SNeg(x) == [i \in 1..Len(x) |-> [p |-> CNeg(x[i].p), ks |-> x[i].ks, ops |-> x[i].ops]]

\* the symbolic polynomial vanishes for this assignment
ZeroUnder(poly, sym, f) ==
    LET inst == Inst(poly, sym, f)
        live == SelectSeq(inst, LAMBDA t : t.p # CZero)
        num  == Numbering(IdxSet({live[i] : i \in 1..Len(live)}))
    IN  IsZeroOperator(PToModes(live, num))

IsZeroSymbolic(poly, sym, values) == \A f \in [NamesOf(poly, sym) -> values] : ZeroUnder(poly, sym, f)

\* result = x y - y x
IsCommutator(result, x, y, sym, values) ==
    IsZeroSymbolic(result \o SNeg(SPMul(x, y)) \o SPMul(y, x), sym, values)

-----------------------------------------------------------------------------
(* The algorithm, one step per operator pair, over symbolic modes           *)
CONSTANTS Names, MaxLen
Ops == [c : BOOLEAN, i : Names \X {"0", "1"}]
Sym == <<TRUE, FALSE>>
OpSeqs == UNION {[1..n -> Ops] : n \in 0..MaxLen}

VARIABLES a, b, k, q, out
vars == <<a, b, k, q, out>>

Init == /\ a \in {[p |-> <<2, 1>>, ks |-> <<>>, ops |-> o] : o \in OpSeqs}
        /\ b \in {[p |-> <<1, 1>>, ks |-> <<>>, ops |-> o] : o \in OpSeqs}
        /\ (Len(a.ops) * Len(b.ops)) % 2 = 0
        /\ k = 1 /\ q = 1 /\ out = <<>>
n == Len(a.ops)
m == Len(b.ops)
Done == k > n \/ m = 0
\* symbolic indices never forbid a contraction, numeric ones have to agree
Contractible == a.ops[k].c # b.ops[q].c /\ \A p \in 1..2 : ~Sym[p] => a.ops[k].i[p] = b.ops[q].i[p]
Deltas == IF a.ops[k].i[1] = b.ops[q].i[1] THEN <<>> ELSE <<<<a.ops[k].i[1], b.ops[q].i[1]>>>>
Advance == IF q = m THEN k' = k + 1 /\ q' = 1 ELSE k' = k /\ q' = q + 1
NewTerm ==
    [p |-> CScale(IF (m * (n - k) + q - 1) % 2 = 0 THEN 1 ELSE -1, CMul(a.p, b.p)),
     ks |-> a.ks \o b.ks \o Deltas,
     ops |-> SubSeq(a.ops, 1, k - 1) \o SubSeq(b.ops, 1, q - 1)
             \o SubSeq(b.ops, q + 1, m) \o SubSeq(a.ops, k + 1, n)]
ContractEqual     == ~Done /\ Contractible /\ Deltas = <<>> /\ out' = Append(out, NewTerm) /\ Advance /\ UNCHANGED <<a, b>>
ContractWithDelta == ~Done /\ Contractible /\ Deltas # <<>> /\ out' = Append(out, NewTerm) /\ Advance /\ UNCHANGED <<a, b>>
Skip              == ~Done /\ ~Contractible /\ Advance /\ UNCHANGED <<a, b, out>>
Next == ContractEqual \/ ContractWithDelta \/ Skip
Spec == Init /\ [][Next]_vars

Correct == Done => IsCommutator(out, <<a>>, <<b>>, Sym, Values2)
=============================================================================
