----------------------------- MODULE IteratorTrace -----------------------------
EXTENDS Integers, Sequences, FiniteSets, TraceKit
I == INSTANCE Iterator WITH Low <- 0, High <- 0, Names <- {}, Offsets <- {}, MaxOps <- 0, Dump <- FALSE,
                            pos <- 0, unit <- 0, ops <- 0, start <- 0
VARIABLE pos
tvars == <<l, pos>>
TraceInit == l = 1 /\ pos = <<>>
Begin == IsEvent("begin") /\ pos' = <<>>
\* iterators constructed from numbers
Make == IsEvent("make") /\ pos' = Ev.from /\ Ev.pos = pos'
\* one operation: its result, and the positions of all iterators afterwards
Operate == /\ IsEvent("it") /\ Ev.do \in I!Ops
           /\ Ev.r = I!Result(pos, Ev.do, Ev.a, Ev.b, Ev.n)
           /\ pos' = I!After(pos, Ev.do, Ev.a, Ev.b, Ev.n)
           /\ Ev.pos = pos'
Compare == IsEvent("cmp") /\ Ev.r = I!Comparisons(pos[Ev.a], pos[Ev.b]) /\ UNCHANGED pos /\ Ev.pos = pos
\* standard algorithms over the range from iterator a to iterator b (b not before a)
Visit(a, b) == [k \in 1..(pos[b] - pos[a]) |-> pos[a] + k - 1]
Algorithms == /\ IsEvent("algorithms")
              /\ LET w == Visit(Ev.a, Ev.b)
                     inside == Ev.x \in pos[Ev.a]..(pos[Ev.b] - 1)
                 IN  /\ Holds(\A k \in 1..Len(Ev.visits) : Ev.visits[k] = w)
                     /\ Holds(\A k \in 1..Len(Ev.counts) : Ev.counts[k] = Len(w))
                     \* find and lower_bound of x
                     /\ Ev.find = (IF inside THEN Ev.x ELSE pos[Ev.b])
                     /\ Ev.lower = (IF Ev.x <= pos[Ev.a] THEN pos[Ev.a] ELSE IF Ev.x >= pos[Ev.b] THEN pos[Ev.b] ELSE Ev.x)
                     /\ Ev.binary = inside
              /\ UNCHANGED pos /\ Ev.pos = pos
TraceNext == Begin \/ Make \/ Operate \/ Compare \/ Algorithms
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
