------------------------- MODULE SiteOccupationTrace -------------------------
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TraceKit
S == INSTANCE SiteOccupation WITH N <- 0, Orbitals <- {}, Vectors <- {}, orb <- 0, vec <- 0, mode <- 0, k <- 0, j <- 0, acc <- 0
VARIABLES tab, els
tvars == <<l, tab, els>>
TraceInit == l = 1 /\ tab = [den |-> 1, g |-> <<>>] /\ els = <<>>
Begin == IsEvent("begin") /\ tab' = [den |-> 1, g |-> <<>>] /\ els' = <<>>
\* a new two-point function, and the elements of the basis and of its conjugate in the order in which they are used
Table == IsEvent("table") /\ tab' = [den |-> Ev.den, g |-> Ev.g] /\ UNCHANGED els
Basis == IsEvent("basis") /\ els' = Ev.els /\ UNCHANGED tab
         /\ Holds(Ev.conj = [x \in 1..Len(Ev.els) |-> [y \in 1..Len(Ev.els[x]) |-> S!Adj1(Ev.els[x][Len(Ev.els[x]) + 1 - y])]])
Gf(a, b) == tab.g[a + 1][b + 1]
\* all values of one row: <<row, Den^3 * 2 <B_row B_b+> >>
Pairs == IsEvent("pairs") /\ UNCHANGED <<tab, els>>
         /\ Holds(\A x \in 1..Len(Ev.cols) :
                Ev.vals[x] = S!Exact(Gf, tab.den, els[Ev.row + 1], els[Ev.cols[x] + 1]))
Total == IsEvent("total") /\ UNCHANGED <<tab, els>> /\ Len(Ev.v) = Len(els)
         /\ Holds(Ev.value = S!Total(Gf, tab.den, els, Ev.v))
\* tabulated (irrational) two-point functions of a physical state: fixed point values
Abs(x) == IF x < 0 THEN -x ELSE x
Close(a, b) == Abs(a - b) <= 2
Physical == IsEvent("physical") /\ UNCHANGED <<tab, els>> /\ Ev.values[1] >= -2
            /\ Holds(\A x \in 2..Len(Ev.values) : Close(Ev.values[1], Ev.values[x]))
TraceNext == Begin \/ Table \/ Basis \/ Pairs \/ Total \/ Physical
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
