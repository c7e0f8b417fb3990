------------------------------ MODULE FermiSea ------------------------------
(***************************************************************************)
(* Occupation dynamics on top of a filled Fermi sea.  A mode is a tuple    *)
(* whose first entry is the momentum; it belongs to the initial sea iff    *)
(* its momentum's energy lies below the Fermi energy.                      *)
(*                                                                         *)
(* Abstract state: the set of occupied modes (`occ`) or the zero vector    *)
(* (`dead`).  The second half of the state is the bookkeeping the          *)
(* implementation keeps (lists of created / annihilated particles); the    *)
(* invariants say that the bookkeeping is a faithful representation.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt

\* effect of one operator on (difference to the sea, dead); InSea: predicate on modes
Occupied(m, diff, InSea(_)) == InSea(m) # (m \in diff)
StepOp(o, x, InSea(_)) ==
    IF x.dead THEN x
    ELSE IF o.c = Occupied(o.m, x.diff, InSea) THEN [dead |-> TRUE, diff |-> {}]
    ELSE [dead |-> FALSE, diff |-> IF o.m \in x.diff THEN x.diff \ {o.m} ELSE x.diff \cup {o.m}]
\* rightmost operator first
StepOps(ops, x, InSea(_)) == FoldRight(LAMBDA o, acc : StepOp(o, acc, InSea), ops, x)
Sea0 == [dead |-> FALSE, diff |-> {}]
CreatedOf(x, InSea(_)) == {m \in x.diff : ~InSea(m)}
HolesOf(x, InSea(_))   == {m \in x.diff : InSea(m)}
-----------------------------------------------------------------------------
CONSTANTS Momenta, Spins, MaxOps, Dump

Modes == Momenta \X Spins

VARIABLES sea, occ, dead, created, holes, diff, hist
vars == <<sea, occ, dead, created, holes, diff, hist>>

InSea(m) == m[1] \in sea

Init == /\ sea \in SUBSET Momenta
        /\ occ = {m \in Modes : m[1] \in sea}
        /\ dead = FALSE /\ created = <<>> /\ holes = <<>> /\ diff = {} /\ hist = <<>>

Has(s, m) == \E j \in 1..Len(s) : s[j] = m
Without(s, m) == LET j == CHOOSE j \in 1..Len(s) : s[j] = m /\ \A h \in 1..(j - 1) : s[h] # m
                 IN  SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))

Log(c, m) == /\ Len(hist) < MaxOps /\ hist' = Append(hist, [c |-> c, m |-> m])
             /\ diff' = StepOp([c |-> c, m |-> m], [dead |-> dead, diff |-> diff], InSea).diff
             /\ UNCHANGED sea
Kill == dead' = TRUE /\ UNCHANGED <<occ, created, holes>>

\* creation
CreateNew(m)     == Log(TRUE, m) /\ ~dead /\ ~InSea(m) /\ ~Has(created, m)
                    /\ created' = Append(created, m) /\ occ' = occ \cup {m} /\ UNCHANGED <<dead, holes>>
CreateFillsHole(m) == Log(TRUE, m) /\ ~dead /\ InSea(m) /\ Has(holes, m)
                    /\ holes' = Without(holes, m) /\ occ' = occ \cup {m} /\ UNCHANGED <<dead, created>>
CreateBlocked(m) == Log(TRUE, m) /\ ~dead
                    /\ ((InSea(m) /\ ~Has(holes, m)) \/ (~InSea(m) /\ Has(created, m))) /\ Kill
\* annihilation
HoleNew(m)       == Log(FALSE, m) /\ ~dead /\ InSea(m) /\ ~Has(holes, m)
                    /\ holes' = Append(holes, m) /\ occ' = occ \ {m} /\ UNCHANGED <<dead, created>>
HoleUndoes(m)    == Log(FALSE, m) /\ ~dead /\ ~InSea(m) /\ Has(created, m)
                    /\ created' = Without(created, m) /\ occ' = occ \ {m} /\ UNCHANGED <<dead, holes>>
HoleBlocked(m)   == Log(FALSE, m) /\ ~dead
                    /\ ((InSea(m) /\ Has(holes, m)) \/ (~InSea(m) /\ ~Has(created, m))) /\ Kill
StayDead(c, m)   == Log(c, m) /\ dead /\ UNCHANGED <<occ, dead, created, holes>>

Next == \E m \in Modes : \/ CreateNew(m) \/ CreateFillsHole(m) \/ CreateBlocked(m)
                         \/ HoleNew(m) \/ HoleUndoes(m) \/ HoleBlocked(m)
                         \/ \E c \in BOOLEAN : StayDead(c, m)
Spec == Init /\ [][Next]_vars

Range0(s) == {s[j] : j \in 1..Len(s)}
NoDuplicates == Cardinality(Range0(created)) = Len(created) /\ Cardinality(Range0(holes)) = Len(holes)
\* the bookkeeping is exactly the difference between the occupation and the initial sea
Faithful == ~dead => /\ Range0(created) = {m \in occ : ~InSea(m)}
                     /\ Range0(holes) = {m \in Modes \ occ : InSea(m)}
                     /\ diff = Range0(created) \cup Range0(holes)
\* dead exactly if some step of the history was forbidden by the exclusion principle
Vanishing == LET Run(k) == FoldLeft(LAMBDA acc, o : StepOp(o, acc, InSea), Sea0, SubSeq(hist, 1, k))
             IN  Run(Len(hist)).dead = dead
IsSeaIffNoDifference == ~dead => ((occ = {m \in Modes : InSea(m)}) = (created = <<>> /\ holes = <<>>))

Flat == FoldLeft(LAMBDA acc, o : acc \o <<IF o.c THEN 1 ELSE 0, o.m[1], o.m[2]>>, <<>>, hist)
Emit == (Dump /\ Len(hist) = MaxOps) =>
            PrintT(<<"BEHAVIOUR", ToJson(<<[k \in 1..Cardinality(Momenta) |-> IF k - 1 \in sea THEN 1 ELSE 0], Flat>>)>>)
=============================================================================
