-------------------------------- MODULE Triplets --------------------------------
(***************************************************************************)
(* Lists of (row, column, value) triplets of one row: appending, sorting by *)
(* column, merging equal columns in one pass with a running triplet, and    *)
(* the test for duplicates on neighbouring entries.  Values are complex     *)
(* integers <<re, im>>.                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, Bags
TPlus(a, b) == <<a[1] + b[1], a[2] + b[2]>>
TNull == <<0, 0>>
\* the matrix that a list denotes
Columns(s) == {s[x].c : x \in 1..Len(s)}
Entry(s, r, c) == FoldLeft(LAMBDA a, t : IF t.r = r /\ t.c = c THEN TPlus(a, t.v) ELSE a, TNull, s)
SameMatrix(s, t) == \A x \in {<<s[y].r, s[y].c>> : y \in 1..Len(s)} \cup {<<t[y].r, t[y].c>> : y \in 1..Len(t)} :
                        Entry(s, x[1], x[2]) = Entry(t, x[1], x[2])
OneRow(s) == \A x \in 1..Len(s) : s[x].r = s[1].r
Sorted(s) == \A x \in 1..(Len(s) - 1) : s[x].c <= s[x + 1].c
StrictlySorted(s) == \A x \in 1..(Len(s) - 1) : s[x].c < s[x + 1].c
NoZeros(s) == \A x \in 1..Len(s) : s[x].v # TNull
AsBag(s) == FoldLeft(LAMBDA b, t : b (+) SetToBag({t}), EmptyBag, s)
HasDuplicates(s) == Cardinality(Columns(s)) < Len(s)
\* what each operation has to do
IsSortOf(new, old) == AsBag(new) = AsBag(old) /\ Sorted(new)
IsMergeOf(new, old) == SameMatrix(new, old) /\ NoZeros(new) /\ (Sorted(old) => StrictlySorted(new))
                       /\ Columns(new) \subseteq Columns(old)
-----------------------------------------------------------------------------
CONSTANTS Cols, Values, MaxLen
VARIABLES list, sorted, out, cur, pos, phase
vars == <<list, sorted, out, cur, pos, phase>>
None == [r |-> 0, c |-> 0, v |-> TNull]
Init == list = <<>> /\ sorted = <<>> /\ out = <<>> /\ cur = None /\ pos = 0 /\ phase = "fill"
Add == /\ phase = "fill" /\ Len(list) < MaxLen
       /\ \E c \in Cols, v \in Values : list' = Append(list, [r |-> 1, c |-> c, v |-> v])
       /\ UNCHANGED <<sorted, out, cur, pos, phase>>
\* any order of equal columns
Sort == /\ phase = "fill"
        /\ \E p \in Permutations(1..Len(list)) :
               LET s == [x \in 1..Len(list) |-> list[p[x]]]
               IN  Sorted(s) /\ sorted' = s
        /\ phase' = "sorted" /\ UNCHANGED <<list, out, cur, pos>>
Begin == /\ phase = "sorted"
         /\ IF sorted = <<>> THEN phase' = "done" /\ UNCHANGED <<cur, pos>>
            ELSE cur' = sorted[1] /\ pos' = 2 /\ phase' = "merge"
         /\ UNCHANGED <<list, sorted, out>>
Flush == IF cur.v # TNull THEN Append(out, cur) ELSE out
Merge == /\ phase = "merge"
         /\ IF pos > Len(sorted) THEN out' = Flush /\ phase' = "done" /\ UNCHANGED <<cur, pos>>
            ELSE /\ IF sorted[pos].c = cur.c THEN cur' = [cur EXCEPT !.v = TPlus(@, sorted[pos].v)] /\ out' = out
                    ELSE out' = Flush /\ cur' = sorted[pos]
                 /\ pos' = pos + 1 /\ phase' = phase
         /\ UNCHANGED <<list, sorted>>
Next == Add \/ Sort \/ Begin \/ Merge
Spec == Init /\ [][Next]_vars
SortKeeps == phase # "fill" => IsSortOf(sorted, list)
MergeKeeps == phase = "done" => IsMergeOf(out, sorted) /\ StrictlySorted(out)
DuplicateTest == phase = "sorted" => (HasDuplicates(sorted) <=> \E x \in 1..(Len(sorted) - 1) : sorted[x].c = sorted[x + 1].c)
=============================================================================
