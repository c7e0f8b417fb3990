-------------------------- MODULE MomentumMatrixTrace --------------------------
EXTENDS Integers, Sequences, FiniteSets, TraceKit
M == INSTANCE MomentumMatrix WITH Rings4 <- {}, Js <- {}, Us <- {}, n <- 0, q <- 0, J <- 0, U <- 0, e <- 0, s <- 0
B == INSTANCE Basis WITH Sizes <- {}, kind <- 0, n <- 0, q <- 0, i1 <- 0, i2 <- 0, i3 <- 0, els <- 0
VARIABLES els, d, pos
tvars == <<l, els, d, pos>>
TraceInit == l = 1 /\ els = <<>> /\ d = <<>> /\ pos = <<>>
Begin == IsEvent("begin") /\ els' = <<>> /\ d' = <<>> /\ pos' = <<>>
Geometry == IsEvent("geometry") /\ d' = Ev.d /\ pos' = Ev.pos /\ els' = <<>>
Basis == /\ IsEvent("basis") /\ els' = Ev.els /\ B!ListsOnce(Ev.els, B!Momentum3(d, pos, Ev.q)) /\ UNCHANGED <<d, pos>>
Near(a, b, t) == a - b \in (-t)..t
\* values are given times 2N (exact) or times 2N * 10^k with a tolerance
RowCorrect(k) ==
    LET r == Ev.rows[k]
        eps(i) == Ev.eps[i + 1]
        n == Len(pos)
        Want(c) == M!Entry(n, eps, Ev.U, els[k], els[c + 1])
    IN  /\ \A j \in 1..Len(r) : r[j][1] \in 0..(Len(els) - 1)
        /\ \A j \in 2..Len(r) : r[j - 1][1] < r[j][1]
        /\ \A j \in 1..Len(r) : Near(r[j][2], Want(r[j][1]), Ev.tol)
        /\ LET listed == {r[j][1] : j \in 1..Len(r)}
           IN  \A c \in (0..(Len(els) - 1)) \ listed : Near(0, Want(c), Ev.tol)
Matrix == /\ IsEvent("matrix") /\ Ev.size = <<Len(els), Len(els)>> /\ Ev.finalized = Len(els)
          /\ Len(Ev.rows) = Len(els) /\ Holds(\A k \in 1..Len(els) : RowCorrect(k))
          /\ UNCHANGED <<els, d, pos>>
\* a row of a large matrix (U # 0): the one-operator element couples to every element, any other one only to it and
\* itself
Row == /\ IsEvent("row")
       /\ LET n == Len(pos)
              eps(i) == Ev.eps[i + 1]
              size == 1 + n * n
              len == IF Ev.row = 0 THEN size ELSE 2
          IN  /\ Ev.size = <<size, size>> /\ Ev.finalized = size /\ Ev.count = len /\ Ev.rising
              /\ (Ev.row = 0) = (Len(Ev.el) = 1)
              /\ Len(Ev.el) = 3 => /\ {Ev.list[k].c : k \in 1..Len(Ev.list)} = {0, Ev.row}
                                   /\ B!Conserves(d, pos, Ev.q, Ev.el[1][2], Ev.el[2][2], Ev.el[3][2])
              /\ Holds(\A k \in 1..Len(Ev.list) : Ev.list[k].v = M!Entry(n, eps, Ev.U, Ev.el, Ev.list[k].el))
       /\ UNCHANGED <<els, d, pos>>
TraceNext == Begin \/ Row \/ Geometry \/ Basis \/ Matrix
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
