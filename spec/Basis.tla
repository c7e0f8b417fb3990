--------------------------------- MODULE Basis ---------------------------------
(***************************************************************************)
(* Operator bases of the Hubbard model.  An element is a sequence of       *)
(* operators <<creator?, site/momentum number, spin up?>>.  A geometry     *)
(* d = <<n>> or <<nx, ny>> with the positions pos of all numbers.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ---- what the bases are (sets of elements)
One(i) == <<<<TRUE, i, TRUE>>>>
Three(i1, i2, i3) == <<<<TRUE, i1, TRUE>>, <<TRUE, i2, FALSE>>, <<FALSE, i3, FALSE>>>>
AdjointOf(e) == [k \in 1..Len(e) |-> LET o == e[Len(e) + 1 - k] IN <<~o[1], o[2], o[3]>>]
\* momentum conservation, direction by direction
Conserves(d, pos, q, i1, i2, i3) ==
    \A a \in 1..Len(d) : (pos[i1 + 1][a] + pos[i2 + 1][a] - pos[i3 + 1][a] - pos[q + 1][a]) % d[a] = 0
Real1(n) == {One(i) : i \in 0..(n - 1)}
Real3(n) == Real1(n) \cup {Three(i1, i2, i3) : i1 \in 0..(n - 1), i2 \in 0..(n - 1), i3 \in 0..(n - 1)}
Momentum3(d, pos, q) ==
    LET R == 0..(Len(pos) - 1)
    IN  {One(q)} \cup {Three(t[1], t[2], t[3]) : t \in {s \in R \X R \X R : Conserves(d, pos, q, s[1], s[2], s[3])}}
Range(s) == {s[k] : k \in 1..Len(s)}
\* every element of S exactly once
ListsOnce(s, S) == Len(s) = Cardinality(S) /\ Range(s) = S
-----------------------------------------------------------------------------
CONSTANTS Sizes
VARIABLES kind, n, q, i1, i2, i3, els
vars == <<kind, n, q, i1, i2, i3, els>>
Chain == [k \in 1..n |-> <<k - 1>>]
Init == /\ kind \in {"real", "momentum"} /\ n \in Sizes
        /\ q \in (IF kind = "real" THEN {0} ELSE 0..(n - 1))
        /\ els = (IF kind = "real" THEN [k \in 1..n |-> One(k - 1)] ELSE <<One(q)>>)
        /\ i1 = 0 /\ i2 = 0 /\ i3 = 0
Advance2 == IF i2 + 1 < n THEN i2' = i2 + 1 /\ i1' = i1 ELSE i2' = 0 /\ i1' = i1 + 1
AddReal == /\ kind = "real" /\ i1 < n /\ els' = Append(els, Three(i1, i2, i3))
           /\ (IF i3 + 1 < n THEN i3' = i3 + 1 /\ UNCHANGED <<i1, i2>> ELSE i3' = 0 /\ Advance2)
           /\ UNCHANGED <<kind, n, q>>
AddMomentum == /\ kind = "momentum" /\ i1 < n /\ els' = Append(els, Three(i1, i2, (i1 + i2 + n - q) % n))
               /\ Advance2 /\ UNCHANGED <<kind, n, q, i3>>
Next == AddReal \/ AddMomentum
Spec == Init /\ [][Next]_vars
Done == i1 = n
Complete == Done => ListsOnce(els, IF kind = "real" THEN Real3(n) ELSE Momentum3(<<n>>, Chain, q))
IndexInverts == \A k \in 1..Len(els) : Len(els[k]) = 3 =>
    k - 1 = (IF kind = "real" THEN n + n * n * els[k][1][2] + n * els[k][2][2] + els[k][3][2]
                              ELSE 1 + n * els[k][1][2] + els[k][2][2])
Size == Done => Len(els) = (IF kind = "real" THEN n + n * n * n ELSE 1 + n * n)
=============================================================================
