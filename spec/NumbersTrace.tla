------------------------------- MODULE NumbersTrace -------------------------------
EXTENDS Integers, Sequences, TraceKit
N == INSTANCE Numbers WITH Parts <- {}, Tols <- {}, a <- 0, b <- 0, tol <- 0, acc <- 0, step <- 0
tvars == <<l>>
TraceInit == l = 1
Begin == IsEvent("begin")
\* results are multiplied by scale (1, or scale^2 for products) before they are logged
Conj == IsEvent("conj") /\ Holds(Ev.res = N!NConj(Ev.a))
Products == IsEvent("products") /\ Holds(Ev.mul = N!MulConj(Ev.a, Ev.b) /\ Ev.add = N!AddProducts(Ev.a, Ev.b))
\* eps in units; tol = -1: no tolerance given
Equal == IsEvent("equal")
         /\ Holds(LET t == IF Ev.tol < 0 THEN 0 ELSE Ev.tol
                  IN  Ev.eq = N!Close(Ev.a, Ev.b, t, Ev.eps) /\ Ev.qe = Ev.eq)
Zero == IsEvent("zero")
        /\ Holds(LET t == IF Ev.tol < 0 THEN 0 ELSE Ev.tol IN Ev.zero = N!Close(Ev.a, <<0, 0>>, t, Ev.eps))
Types == IsEvent("types") /\ Holds(\A x \in 1..Len(Ev.same) : Ev.same[x])
\* large integers by their digits; same: b is the conjugate of a
Wide == IsEvent("wide")
        /\ Holds(/\ Ev.eq = (Ev.a = Ev.b) /\ Ev.zero = (\A x \in 2..4 : Ev.a[x] = 0)
                 /\ Ev.same => Ev.b = Ev.a)
TraceNext == Begin \/ Conj \/ Products \/ Equal \/ Zero \/ Wide \/ Types
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
