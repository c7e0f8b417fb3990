------------------------------ MODULE Prefactor ------------------------------
(***************************************************************************)
(* A symbolic prefactor: a number times a product of Kronecker deltas.     *)
(* Abstractly the deltas are a bag of unordered pairs of index names;      *)
(* concretely a sequence of oriented pairs.  Names are their ranks in the  *)
(* lexicographic order.                                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Bags, SequencesExt, FiniteSetsExt, TLC

\* ---- pairs
Orient(d)  == IF d[1] > d[2] THEN <<d[2], d[1]>> ELSE d
SamePair(d, e) == Orient(d) = Orient(e)
PairLess(d, e) == d[1] < e[1] \/ (d[1] = e[1] /\ d[2] < e[2])
PairLeq(d, e)  == d = e \/ PairLess(d, e)

\* ---- bag of a sequence of pairs
BagOf(ks) ==
    LET o == [i \in 1..Len(ks) |-> Orient(ks[i])]
    IN  [d \in {o[i] : i \in 1..Len(o)} |-> Cardinality({i \in 1..Len(o) : o[i] = d})]

InOrder(ks) == \A i \in 1..(Len(ks) - 1) : PairLeq(ks[i], ks[i + 1])
Oriented(ks) == \A i \in 1..Len(ks) : ks[i][1] <= ks[i][2]
\* the canonical sequence of a bag is the only sorted, oriented sequence with that bag
Canonical(ks, bag) == Oriented(ks) /\ InOrder(ks) /\ BagOf(ks) = bag

Insert(ks, d) ==   \* insertion into a sorted sequence
    LET pos == Cardinality({i \in 1..Len(ks) : PairLeq(ks[i], d)})
    IN  SubSeq(ks, 1, pos) \o <<d>> \o SubSeq(ks, pos + 1, Len(ks))
Order(ks) == FoldLeft(LAMBDA acc, d : Insert(acc, Orient(d)), <<>>, ks)

CMul(x, y) == <<x[1] * y[1] - x[2] * y[2], x[1] * y[2] + x[2] * y[1]>>
-----------------------------------------------------------------------------
(* State machine: one prefactor under any history of multiplications        *)
CONSTANTS Names, MaxDeltas, Numbers
Pairs == Names \X Names

VARIABLES val, ks, bag, canonical
vars == <<val, ks, bag, canonical>>

Init == val = <<1, 0>> /\ ks = <<>> /\ bag = EmptyBag /\ canonical = TRUE
Grow(seq) == /\ Len(ks) + Len(seq) <= MaxDeltas
             /\ ks' = ks \o seq
             /\ bag' = bag (+) BagOf(seq)
             /\ canonical' = FALSE
MulNumber == \E x \in Numbers : val = <<1, 0>> /\ val' = CMul(val, x) /\ UNCHANGED <<ks, bag, canonical>>
MulDelta  == \E d \in Pairs : Grow(<<d>>) /\ UNCHANGED val
MulPrefactor == \E d, e \in Pairs, x \in Numbers : val = <<1, 0>> /\ Grow(<<d, e>>) /\ val' = CMul(val, x)
MulSelf   == Len(ks) > 0 /\ val = <<1, 0>> /\ Grow(ks) /\ UNCHANGED val
DoOrder   == ks' = Order(ks) /\ canonical' = TRUE /\ UNCHANGED <<val, bag>>
Next == MulNumber \/ MulDelta \/ MulPrefactor \/ MulSelf \/ DoOrder
Spec == Init /\ [][Next]_vars

MeaningPreserved == BagOf(ks) = bag
OrderIsCanonical == canonical => Canonical(ks, bag)
OrderIdempotent  == Order(Order(ks)) = Order(ks)
\* any orientation and any order of the same deltas is brought to the same sequence
OrderUnique ==
    \A i, j \in 1..Len(ks) :
        LET swapped == [x \in 1..Len(ks) |-> IF x = i THEN <<ks[j][2], ks[j][1]>>
                                             ELSE IF x = j THEN ks[i] ELSE ks[x]]
        IN  i # j => Order(swapped) = Order(ks)
EqualityIsEquivalence ==
    \A d, e, f \in Pairs : /\ SamePair(d, d)
                           /\ SamePair(d, e) = SamePair(e, d)
                           /\ SamePair(d, e) /\ SamePair(e, f) => SamePair(d, f)
                           /\ SamePair(d, e) <=> ({d[1], d[2]} = {e[1], e[2]})
=============================================================================
