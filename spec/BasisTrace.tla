------------------------------ MODULE BasisTrace ------------------------------
EXTENDS Integers, Sequences, FiniteSets, TraceKit
B == INSTANCE Basis WITH Sizes <- {}, kind <- 0, n <- 0, q <- 0, i1 <- 0, i2 <- 0, i3 <- 0, els <- 0
VARIABLES els, d, pos
tvars == <<l, els, d, pos>>
TraceInit == l = 1 /\ els = <<>> /\ d = <<>> /\ pos = <<>>
Begin == IsEvent("begin") /\ els' = <<>> /\ d' = <<>> /\ pos' = <<>>
\* the numbering of sites/momenta (decided by C09 and C10)
Geometry == IsEvent("geometry") /\ d' = Ev.d /\ pos' = Ev.pos /\ UNCHANGED els
N == Len(pos)
\* a basis is built: its listing, and the listing of the adjoints
Build == /\ IsEvent("basis")
         /\ Ev.n = N
         /\ B!ListsOnce(Ev.els, CASE Ev.kind = "real1" -> B!Real1(N)
                                  [] Ev.kind = "real3" -> B!Real3(N)
                                  [] Ev.kind = "momentum3" -> B!Momentum3(d, pos, Ev.q))
         \* the operators the listing starts with are the one-operator part
         /\ Holds(\A k \in 1..(IF Ev.kind = "momentum3" THEN 1 ELSE N) : Len(Ev.els[k]) = 1)
         /\ Ev.traits = (IF Ev.kind = "real1" THEN <<TRUE, FALSE>> ELSE <<FALSE, TRUE>>)
         /\ els' = Ev.els /\ UNCHANGED <<d, pos>>
Conjugate == /\ IsEvent("conjugate") /\ Ev.els = [k \in 1..Len(els) |-> B!AdjointOf(els[k])]
             /\ Ev.before = els
             /\ (Ev.inplace => els' = Ev.els) /\ (~Ev.inplace => els' = els) /\ UNCHANGED <<d, pos>>
\* the index function applied to the three operators of every element of the listing
Index == /\ IsEvent("index")
         /\ Ev.of = [k \in 1..Len(els) |-> IF Len(els[k]) = 3 THEN k - 1 ELSE -1]
         /\ UNCHANGED <<els, d, pos>>
Lookup == /\ IsEvent("at") /\ Ev.r \in 0..(Len(els) - 1)
          /\ LET e == els[Ev.r + 1] IN Len(e) = 3 /\ \A k \in 1..Len(Ev.i) : e[k][2] = Ev.i[k]
          /\ UNCHANGED <<els, d, pos>>
\* large bases, at sampled positions.  The index function is inverse to the listing wherever it is asked, the size is
\* the number of elements, and the one-operator elements come first
Singles(kind, n) == IF kind = "momentum3" THEN 1 ELSE n
SizeOf(kind, n) == CASE kind = "real1" -> n [] kind = "real3" -> n + n * n * n [] OTHER -> 1 + n * n
Belongs(kind, q, e) ==
    CASE Len(e) = 1 -> e[1][2] \in 0..(N - 1) /\ e = B!One(e[1][2]) /\ (kind = "momentum3" => e[1][2] = q)
      [] Len(e) = 3 -> /\ kind # "real1"
                       /\ \A k \in 1..3 : e[k][2] \in 0..(N - 1)
                       /\ e = B!Three(e[1][2], e[2][2], e[3][2])
                       /\ kind = "momentum3" => B!Conserves(d, pos, q, e[1][2], e[2][2], e[3][2])
      [] OTHER -> FALSE
SampledBasis ==
    /\ IsEvent("sampled") /\ Ev.n = N /\ Ev.size = SizeOf(Ev.kind, N) /\ Ev.csize = Ev.size
    /\ Holds(\A k \in 1..Len(Ev.sites) :
           LET s == Ev.sites[k]
           IN  /\ s.r \in 0..(Ev.size - 1) /\ Belongs(Ev.kind, Ev.q, s.el)
               /\ (Ev.kind # "real1" => Len(s.el) = 3)
               /\ \A j \in 1..Len(s.i) : s.el[j][2] = s.i[j]
               /\ s.adj = B!AdjointOf(s.el))
    /\ Holds(\A k \in 1..Len(Ev.positions) :
           LET s == Ev.positions[k]
           IN  /\ Belongs(Ev.kind, Ev.q, s.el) /\ (Len(s.el) = 1) = (s.p < Singles(Ev.kind, N))
               /\ (Ev.kind = "real1" => s.el[1][2] = s.p)
               /\ s.adj = B!AdjointOf(s.el)
               /\ (Len(s.el) = 3 => s.r = s.p))
    /\ UNCHANGED <<els, d, pos>>
TraceNext == Begin \/ SampledBasis \/ Geometry \/ Build \/ Conjugate \/ Index \/ Lookup
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
