--------------------------- MODULE TermOrderTrace ---------------------------
EXTENDS Integers, Sequences, TraceKit
O == INSTANCE TermOrder WITH Indices <- {}, OrderLen <- 0, MaxLen <- 0, MaxList <- 0, Numbers <- {},
                             input <- 0, pos <- 0, lst <- 0
TraceInit == l = 1
Begin == IsEvent("begin")
CompareOps == /\ IsEvent("opcmp")
              /\ Ev.xy = O!OpLess(Ev.x, Ev.y) /\ Ev.yx = O!OpLess(Ev.y, Ev.x)
              /\ Ev.gxy = O!OpLess(Ev.y, Ev.x) /\ Ev.gyx = O!OpLess(Ev.x, Ev.y)
CompareTerms == /\ IsEvent("termcmp")
                /\ Ev.xy = O!OpsLess(Ev.x, Ev.y) /\ Ev.yx = O!OpsLess(Ev.y, Ev.x)
                /\ Ev.gxy = O!OpsLess(Ev.y, Ev.x) /\ Ev.gyx = O!OpsLess(Ev.x, Ev.y)
\* sorting any list with the order gives a permutation in order
SortedBy == /\ IsEvent("sorted")
            /\ Len(Ev.res) = Len(Ev.list)
            /\ Holds(\A k \in 1..(Len(Ev.res) - 1) : ~O!OpsLess(Ev.res[k + 1], Ev.res[k]))
            /\ Holds(\A k \in 1..Len(Ev.list) :
                   LET n(s) == {j \in 1..Len(s) : s[j] = Ev.list[k]} IN O!Cardinality(n(Ev.res)) = O!Cardinality(n(Ev.list)))
Unique == /\ IsEvent("unique")
          /\ SubSeq(Ev.res, 1, Len(Ev.before)) = Ev.before
          /\ Holds(O!IsReduction(SubSeq(Ev.res, Len(Ev.before) + 1, Len(Ev.res)), Ev.list))
          /\ Ev.list2 = Ev.list
TraceNext == Begin \/ CompareOps \/ CompareTerms \/ SortedBy \/ Unique
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
