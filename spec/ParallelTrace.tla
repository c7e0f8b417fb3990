---------------------------- MODULE ParallelTrace ----------------------------
(* Recorded runs of the parallel computations.                              *)
(*  sequential  one thread; its values are the result                       *)
(*  epoch       accesses of a team between two barriers: groups of bytes    *)
(*              with the same users (t, w: does it write) and locks         *)
(*  parallel    values of a run with a team of several threads under some   *)
(*              schedule, equal up to rounding of the order of summation    *)
EXTENDS TraceKit, Sequences, FiniteSets

P == INSTANCE Parallel WITH T <- 1, N <- 1, Chunking <- "static", Layout <- "own", Dump <- FALSE,
        next <- 0, work <- <<>>, pc <- <<>>, cur <- <<>>, reg <- <<>>, cell <- <<>>, lock <- 0,
        count <- <<>>, acc <- {}, hist <- <<>>

VARIABLES base, name

TraceInit == l = 1 /\ base = <<>> /\ name = ""

Begin == IsEvent("begin") /\ base' = <<>> /\ name' = ""

Serial == /\ IsEvent("sequential")
          /\ base' = Ev.vals
          /\ name' = Ev.name

Accesses(e) == UNION { { [cell |-> k, t |-> u.t, w |-> u.w, held |-> {e.cells[k].held[j] : j \in DOMAIN e.cells[k].held}]
                           : u \in {e.cells[k].users[j] : j \in DOMAIN e.cells[k].users} }
                       : k \in DOMAIN e.cells }
Epoch == /\ IsEvent("epoch")
         /\ Holds(P!ConflictFree(Accesses(Ev)))
         /\ Holds(\A a \in Accesses(Ev) : a.t \in 0 .. Ev.team - 1)
         /\ UNCHANGED <<base, name>>

Close(a, b) == a - b \in -Ev.tol .. Ev.tol
Par == /\ IsEvent("parallel")
       /\ Ev.name = name
       /\ Ev.team <= Ev.max
       /\ Holds(Len(Ev.vals) = Len(base) /\ \A i \in DOMAIN base : Close(Ev.vals[i], base[i]))
       /\ UNCHANGED <<base, name>>

TraceNext == Begin \/ Serial \/ Epoch \/ Par
TraceSpec == TraceInit /\ [][TraceNext]_<<l, base, name>>
=============================================================================
