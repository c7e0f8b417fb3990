---------------------------- MODULE FermiJumpTrace ----------------------------
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TraceKit
F == INSTANCE FermiJump WITH Sizes <- {}, Turns <- {}, MaxObjects <- 0, Seeds <- {}, Shared <- FALSE,
                             objs <- 0, runs <- 0, scratch <- 0, done <- 0
T == INSTANCE Trig
VARIABLES objs
tvars == <<l, objs>>
TraceInit == l = 1 /\ objs = <<>>
Begin == IsEvent("begin") /\ objs' = <<>>
\* objects are numbered in the order in which they come into being
Make == IsEvent("make") /\ Ev.id = Len(objs) + 1
        /\ objs' = Append(objs, [kind |-> Ev.kind, n |-> Len(Ev.pos), den |-> Ev.den, g |-> Ev.g,
                                 phase |-> [i \in 1..Len(Ev.pos) |->
                                     FoldLeft(LAMBDA a, x : a + Ev.turns[x] * Ev.pos[i][x], 0, [x \in 1..Len(Ev.turns) |-> x])]])
Copy == IsEvent("copy") /\ Ev.id = Len(objs) + 1 /\ objs' = Append(objs, objs[Ev.from])
Value(o, v) == LET G(a, b) == o.g[a + 1][b + 1]
               IN  IF o.kind = "plain" THEN o.den * o.den * F!PlainJump(o.n, v, o.phase) ELSE F!Jump(G, o.den, o.n, v, o.phase)
Eval == IsEvent("eval") /\ UNCHANGED objs
        /\ Holds(Ev.value = Value(objs[Ev.id], Ev.v))
\* evaluations that overlapped in time: a list of <<id, v, values>>
Overlap == IsEvent("overlap") /\ UNCHANGED objs
           /\ Holds(\A x \in 1..Len(Ev.evals) : LET e == Ev.evals[x] IN
                       \A y \in 1..Len(e.values) : e.values[y] = Value(objs[e.id], e.v))
\* Fourier coefficients for any momentum (full turn / M) * k per spacing, site coordinates x in spacings
Fourier == IsEvent("fourier") /\ UNCHANGED objs
           /\ Holds(/\ T!ValidTable(Ev.M, Ev.cos, Ev.sin)
                    /\ \A i \in 1..Len(Ev.f) :
                           LET p == FoldLeft(LAMBDA a, x : a + Ev.k[x] * Ev.pos[i][x], 0, [x \in 1..Len(Ev.k) |-> x])
                           IN  /\ T!AbsT(Ev.f[i][1] - T!Cos(Ev.cos, p)) <= 2 /\ T!AbsT(Ev.f[i][2] - T!Sin(Ev.sin, p)) <= 2)
\* what the objects remember of their two-point function
Remember == IsEvent("remember") /\ UNCHANGED objs /\ Holds(Ev.g = objs[Ev.id].g)
TraceNext == Begin \/ Make \/ Copy \/ Eval \/ Overlap \/ Fourier \/ Remember
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
