-------------------------------- MODULE Rk4Trace --------------------------------
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TraceKit
R == INSTANCE Rk4 WITH Systems <- {}, Integrators <- 0, Rounds <- 0, Overlap <- FALSE, sys <- 0, stage <- 0, k <- 0, res <- 0, rounds <- 0
VARIABLES mats, vecs, ints
tvars == <<l, mats, vecs, ints>>
TraceInit == l = 1 /\ mats = <<>> /\ vecs = <<>> /\ ints = <<>>
Begin == IsEvent("begin") /\ mats' = <<>> /\ vecs' = <<>> /\ ints' = <<>>
\* objects are numbered in the order in which they come into being
Matrix == IsEvent("matrix") /\ Ev.id = Len(mats) + 1 /\ mats' = Append(mats, Ev.A) /\ UNCHANGED <<vecs, ints>>
Integrator == IsEvent("integrator") /\ Ev.id = Len(ints) + 1 /\ ints' = Append(ints, [n |-> Ev.n, p |-> Ev.p, q |-> Ev.q]) /\ UNCHANGED <<vecs, mats>>
CopyIntegrator == IsEvent("copyintegrator") /\ Ev.id = Len(ints) + 1 /\ ints' = Append(ints, ints[Ev.from]) /\ UNCHANGED <<vecs, mats>>
Vector == IsEvent("vector") /\ Ev.id = Len(vecs) + 1 /\ vecs' = Append(vecs, Ev.u) /\ UNCHANGED <<mats, ints>>
\* the object gets another content
Rewrite == IsEvent("rewrite") /\ mats' = [mats EXCEPT ![Ev.id] = Ev.A] /\ UNCHANGED <<vecs, ints>>
Set == IsEvent("set") /\ vecs' = [vecs EXCEPT ![Ev.id] = Ev.u] /\ UNCHANGED <<mats, ints>>
\* res is mul times the new vector; the vector is known as an integer vector (in units of an earlier mul)
Step == IsEvent("step") /\ UNCHANGED <<mats, ints>>
        /\ LET i == ints[Ev.int]
               q4 == i.q * i.q * i.q * i.q
           IN  /\ Holds(/\ (24 * q4) % Ev.mul = 0
                        /\ R!VTimes((24 * q4) \div Ev.mul, Ev.res) = R!Taylor(mats[Ev.mat], i.p, i.q, vecs[Ev.vec])
                        /\ Ev.n = i.n)
               /\ vecs' = [vecs EXCEPT ![Ev.vec] = Ev.res]
\* nothing but the stepped vector changes
Look == IsEvent("look") /\ UNCHANGED <<mats, vecs, ints>> /\ Holds(Ev.mats = mats /\ Ev.vecs = vecs)
\* products alone
Product == IsEvent("apply") /\ UNCHANGED <<mats, vecs, ints>>
           /\ Holds(LET w == R!Apply(mats[Ev.mat], Ev.u) IN Ev.blaze = w /\ Ev.eigen = w)
\* bilinear scalar product (no conjugation), also of plain numbers
Dot == IsEvent("dot") /\ UNCHANGED <<mats, vecs, ints>>
       /\ Holds(Ev.r = FoldLeft(LAMBDA s, k : <<s[1] + Ev.x[k][1] * Ev.y[k][1] - Ev.x[k][2] * Ev.y[k][2],
                                                s[2] + Ev.x[k][1] * Ev.y[k][2] + Ev.x[k][2] * Ev.y[k][1]>>,
                               <<0, 0>>, [k \in 1..Len(Ev.x) |-> k])
                /\ Ev.scalar = Ev.x[1][1] * Ev.y[1][1])
TraceNext == Begin \/ Matrix \/ Integrator \/ CopyIntegrator \/ Vector \/ Set \/ Rewrite \/ Step \/ Look \/ Product \/ Dot
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
