------------------------------ MODULE TermOrder ------------------------------
(***************************************************************************)
(* The total orders on operators and terms and the reduction of a list of  *)
(* terms to unique terms (insertion at the lower bound, one input term per *)
(* step).  Operators are [c, i] with integer index tuples.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

\* first position where two sequences of equal length differ (0: none)
FirstDiff(x, y) == LET d == {p \in 1..Len(x) : x[p] # y[p]} IN IF d = {} THEN 0 ELSE Min(d)

LexLess(x, y) == LET p == FirstDiff(x, y) IN p # 0 /\ x[p] < y[p]
\* creators first, then lexicographic indices
OpLess(x, y)  == IF x.c # y.c THEN x.c ELSE LexLess(x.i, y.i)
\* shorter first, then operator by operator
OpsLess(x, y) ==
    IF Len(x) # Len(y) THEN Len(x) < Len(y)
    ELSE LET p == FirstDiff(x, y) IN p # 0 /\ OpLess(x[p], y[p])

StrictTotalOrder(less(_, _), D) ==
    \A x, y, z \in D : /\ ~less(x, x)
                       /\ less(x, y) => ~less(y, x)
                       /\ x # y => less(x, y) \/ less(y, x)
                       /\ less(x, y) /\ less(y, z) => less(x, z)

SortedUnique(lst) == \A k \in 1..(Len(lst) - 1) : OpsLess(lst[k].ops, lst[k + 1].ops)
CAdd(a, b) == <<a[1] + b[1], a[2] + b[2]>>
SumFor(lst, ops) == FoldLeft(LAMBDA acc, t : IF t.ops = ops THEN CAdd(acc, t.p) ELSE acc, <<0, 0>>, lst)
Products(lst) == {lst[k].ops : k \in 1..Len(lst)}
\* the reduction of a list: same products, each once, sorted, summed prefactors
IsReduction(res, lst) ==
    /\ SortedUnique(res)
    /\ Products(res) = Products(lst)
    /\ \A k \in 1..Len(res) : res[k].p = SumFor(lst, res[k].ops)
-----------------------------------------------------------------------------
CONSTANTS Indices, OrderLen, MaxLen, MaxList, Numbers
Ops == [c : BOOLEAN, i : Indices]
OpSeqs(n) == UNION {[1..k -> Ops] : k \in 0..n}

VARIABLES input, pos, lst
vars == <<input, pos, lst>>
Init == /\ input \in UNION {[1..k -> [p : Numbers, ops : OpSeqs(MaxLen)]] : k \in 0..MaxList}
        /\ pos = 1 /\ lst = <<>>

LowerBound(t) == Cardinality({k \in 1..Len(lst) : OpsLess(lst[k].ops, t.ops)}) + 1
Cur == input[pos]
At  == LowerBound(Cur)
AppendEnd == pos <= Len(input) /\ At > Len(lst) /\ lst' = Append(lst, Cur) /\ pos' = pos + 1 /\ UNCHANGED input
Merge     == /\ pos <= Len(input) /\ At <= Len(lst) /\ lst[At].ops = Cur.ops
             /\ lst' = [lst EXCEPT ![At].p = CAdd(@, Cur.p)] /\ pos' = pos + 1 /\ UNCHANGED input
InsertBefore  == /\ pos <= Len(input) /\ At <= Len(lst) /\ lst[At].ops # Cur.ops
             /\ lst' = SubSeq(lst, 1, At - 1) \o <<Cur>> \o SubSeq(lst, At, Len(lst))
             /\ pos' = pos + 1 /\ UNCHANGED input
Next == AppendEnd \/ Merge \/ InsertBefore
Spec == Init /\ [][Next]_vars

ReductionCorrect == IsReduction(lst, SubSeq(input, 1, pos - 1))
OrdersAreTotal == (pos = 1 /\ Len(input) = 0) =>
    /\ StrictTotalOrder(OpLess, Ops)
    /\ StrictTotalOrder(OpsLess, OpSeqs(OrderLen))
=============================================================================
