------------------------- MODULE SeaExpectationTrace -------------------------
EXTENDS Integers, Sequences, FiniteSets, TraceKit, TLCExt
E == INSTANCE SeaExpectation WITH Sizes <- {}, n <- 0, q <- 0, occ <- 0, i <- 0, j <- 0, out <- 0

VARIABLE sys       \* [occ, basis, kets] of the running scenario
tvars == <<l, sys>>
TraceInit == l = 1 /\ sys = <<>>
Begin == IsEvent("begin") /\ sys' = <<>>

System == /\ IsEvent("system")
          /\ LET o == {k \in 0..(Ev.n - 1) : Ev.disp[k + 1] < Ev.ef}
             IN  sys' = TLCEval([occ |-> o, basis |-> Ev.basis,
                                 kets |-> [k \in 1..Len(Ev.basis) |-> E!Ket(Ev.basis[k], o)]])
\* the list: no pair twice, no zero, exactly the non-vanishing pairs, exact values
Listed ==
    /\ IsEvent("contributions")
    /\ LET c == Ev.list
           K == sys.kets
           pairs == {<<c[k][1] + 1, c[k][2] + 1>> : k \in 1..Len(c)}
           all == 1..Len(K)
       IN  /\ Cardinality(pairs) = Len(c)
           /\ Holds(\A k \in 1..Len(c) : c[k][3] # 0 /\ c[k][3] = E!Overlap(K[c[k][1] + 1], K[c[k][2] + 1]))
           /\ Holds(\A a \in all : \A b \in all : E!Overlap(K[a], K[b]) # 0 => <<a, b>> \in pairs)
    /\ UNCHANGED sys
\* sort() orders by (left, right) without changing the content
Sorted0 == /\ IsEvent("listsort")
           /\ Len(Ev.after) = Len(Ev.before)
           /\ {Ev.after[k] : k \in 1..Len(Ev.after)} = {Ev.before[k] : k \in 1..Len(Ev.before)}
           /\ Holds(\A k \in 1..(Len(Ev.after) - 1) :
                  \/ Ev.after[k][1] < Ev.after[k + 1][1]
                  \/ Ev.after[k][1] = Ev.after[k + 1][1] /\ Ev.after[k][2] <= Ev.after[k + 1][2])
           /\ UNCHANGED sys
\* particle number of a coefficient vector
Number == /\ IsEvent("number")
          /\ Ev.res = E!Norm2(sys.basis, Ev.vec, sys.occ)
          /\ UNCHANGED sys
TraceNext == Begin \/ System \/ Listed \/ Sorted0 \/ Number
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
