--------------------------- MODULE LiouvillianTrace ---------------------------
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TraceKit
L == INSTANCE Liouvillian
G == INSTANCE Lattice WITH Extents <- {}, U <- 8, UpperSlack <- 0, d <- 0, start <- 0, hops <- 0, reach <- 0,
                           mode <- 0, u <- 0, v <- 0, idx <- 0
B == INSTANCE Basis WITH Sizes <- {}, kind <- 0, n <- 0, q <- 0, i1 <- 0, i2 <- 0, i3 <- 0, els <- 0
VARIABLES nb, els
tvars == <<l, nb, els>>
TraceInit == l = 1 /\ nb = <<>> /\ els = <<>>
Begin == IsEvent("begin") /\ nb' = <<>> /\ els' = <<>>
\* neighbours follow from the geometry, not from the lattice's own neighbour function
NeighborTable(d, pos) ==
    LET num(p) == (CHOOSE k \in 1..Len(pos) : pos[k] = p) - 1
    IN  [k \in 1..Len(pos) |-> FoldLeft(LAMBDA a, x : a \o <<num(G!Hop(d, pos[k], x, TRUE)), num(G!Hop(d, pos[k], x, FALSE))>>,
                                        <<>>, [x \in 1..Len(d) |-> x])]
Geometry == IsEvent("geometry") /\ nb' = NeighborTable(Ev.d, Ev.pos) /\ els' = <<>>
Basis == /\ IsEvent("basis") /\ els' = Ev.els /\ UNCHANGED nb
         /\ B!ListsOnce(Ev.els, IF Ev.kind = "real1" THEN B!Real1(Len(nb)) ELSE B!Real3(Len(nb)))
Contributions(e) ==
    CASE Ev.kind = "orthogonal" -> L!OrthogonalRow(nb, Ev.J, Ev.U, e)
      [] Ev.kind = "normal" -> LET g(a, b) == Ev.g[a + 1][b + 1] IN L!NormalOrderedRow(g, Ev.den, nb, Ev.J, Ev.U, e)
      [] OTHER -> L!HopRow(Ev.den, nb, Ev.J, e)
\* row k lists <<column, value>>: each position once, in order, and exactly the components of the commutator
RowCorrect(k) ==
    LET r == Ev.rows[k]
        f == L!Sum2(Contributions(els[Ev.which[k] + 1]))
    IN  /\ \A j \in 1..Len(r) : r[j][1] \in 0..(Len(els) - 1)
        /\ \A j \in 2..Len(r) : r[j - 1][1] < r[j][1]
        /\ \A j \in 1..Len(r) : LET e == els[r[j][1] + 1] IN r[j][2] = (IF e \in DOMAIN f THEN f[e] ELSE 0)
        /\ DOMAIN f \subseteq {els[r[j][1] + 1] : j \in 1..Len(r)}
Matrix == /\ IsEvent("matrix") /\ Ev.size = <<Len(els), Len(els)>> /\ Ev.finalized = Len(els)
          /\ Len(Ev.rows) = Len(Ev.which) /\ Holds(\A k \in 1..Len(Ev.which) : RowCorrect(k))
          /\ UNCHANGED <<nb, els>>
TraceNext == Begin \/ Geometry \/ Basis \/ Matrix
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
