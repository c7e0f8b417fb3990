------------------------------ MODULE Parallel ------------------------------
(* A parallel region: iterations are handed to the threads of a team        *)
(* (statically in blocks or dynamically, one at a time); every iteration    *)
(* reads a cell, adds its contribution in a register and writes the cell    *)
(* back; threads may be interleaved between all of these steps.  Which cell *)
(* an iteration uses is the layout of the region:                           *)
(*   "own"       one cell per iteration (tables, conjugate bases, rows)     *)
(*   "perthread" one cell per thread, summed up after the region            *)
(*   "shared"    one cell for everybody (this loses updates)                *)
(*   "locked"    one cell for everybody inside a critical section           *)
(*   "modulo"    too few per-thread cells (loses updates as well)           *)
(* The same conflict condition judges the accesses recorded from the code.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS T, N, Chunking, Layout, Dump

Threads    == 0 .. T - 1
Iterations == 0 .. N - 1

\* two accesses conflict: different threads, same cell, one of them writes, no common lock
Conflict(a, b) == /\ a.cell = b.cell
                  /\ a.t # b.t
                  /\ a.w \/ b.w
                  /\ a.held \cap b.held = {}
ConflictFree(accesses) == \A a \in accesses : \A b \in accesses : ~Conflict(a, b)

\* the block of a thread in a static distribution
Static(t) == LET q == N \div T
                 r == N % T
                 start == IF t < r THEN t * (q + 1) ELSE t * q + r
             IN  [k \in 1 .. (IF t < r THEN q + 1 ELSE q) |-> start + k - 1]

VARIABLES next,   \* dynamic: the next iteration to hand out
          work,   \* static: what is left of every thread's block
          pc, cur, reg, cell, lock, count, acc, hist

vars == <<next, work, pc, cur, reg, cell, lock, count, acc, hist>>

RECURSIVE Pow(_)
Pow(k) == IF k = 0 THEN 1 ELSE 2 * Pow(k - 1)
Contribution(i) == Pow(i)

Cells == 0 .. (IF N > T THEN N ELSE T) - 1
Target(t, i) == CASE Layout = "own" -> i
                  [] Layout = "perthread" -> t
                  [] Layout \in {"shared", "locked"} -> 0
                  [] Layout = "modulo" -> t % (IF T > 1 THEN T - 1 ELSE 1)

Init == /\ next = 0
        /\ work = [t \in Threads |-> IF Chunking = "static" THEN Static(t) ELSE <<>>]
        /\ pc = [t \in Threads |-> "idle"]
        /\ cur = [t \in Threads |-> 0]
        /\ reg = [t \in Threads |-> 0]
        /\ cell = [x \in Cells |-> 0]
        /\ lock = -1
        /\ count = [i \in Iterations |-> 0]
        /\ acc = {}
        /\ hist = <<>>

Held(t) == IF lock = t THEN {"critical"} ELSE {}
Note(t, x, write) == acc' = acc \cup {[cell |-> x, t |-> t, w |-> write, held |-> Held(t)]}
Step(t) == hist' = IF Dump THEN Append(hist, t) ELSE hist

Take(t) ==
    /\ pc[t] = "idle"
    /\ \/ /\ Chunking = "static" /\ work[t] # <<>>
          /\ cur' = [cur EXCEPT ![t] = Head(work[t])]
          /\ work' = [work EXCEPT ![t] = Tail(work[t])]
          /\ UNCHANGED next
       \/ /\ Chunking = "dynamic" /\ next < N
          /\ cur' = [cur EXCEPT ![t] = next]
          /\ next' = next + 1
          /\ UNCHANGED work
    /\ pc' = [pc EXCEPT ![t] = IF Layout = "locked" THEN "lock" ELSE "read"]
    /\ count' = [count EXCEPT ![cur'[t]] = @ + 1]
    /\ Step(t)
    /\ UNCHANGED <<reg, cell, lock, acc>>

Lock(t) ==
    /\ pc[t] = "lock" /\ lock = -1
    /\ lock' = t
    /\ pc' = [pc EXCEPT ![t] = "read"]
    /\ Step(t)
    /\ UNCHANGED <<next, work, cur, reg, cell, count, acc>>

Read(t) ==
    /\ pc[t] = "read"
    /\ reg' = [reg EXCEPT ![t] = cell[Target(t, cur[t])]]
    /\ Note(t, Target(t, cur[t]), FALSE)
    /\ pc' = [pc EXCEPT ![t] = "write"]
    /\ Step(t)
    /\ UNCHANGED <<next, work, cur, cell, lock, count>>

Write(t) ==
    /\ pc[t] = "write"
    /\ cell' = [cell EXCEPT ![Target(t, cur[t])] = reg[t] + Contribution(cur[t])]
    /\ Note(t, Target(t, cur[t]), TRUE)
    /\ pc' = [pc EXCEPT ![t] = IF Layout = "locked" THEN "unlock" ELSE "idle"]
    /\ Step(t)
    /\ UNCHANGED <<next, work, cur, reg, lock, count>>

Unlock(t) ==
    /\ pc[t] = "unlock"
    /\ lock' = -1
    /\ pc' = [pc EXCEPT ![t] = "idle"]
    /\ Step(t)
    /\ UNCHANGED <<next, work, cur, reg, cell, count, acc>>

Finished == /\ \A t \in Threads : pc[t] = "idle" /\ work[t] = <<>>
            /\ Chunking = "static" \/ next = N

Next == \E t \in Threads : Take(t) \/ Lock(t) \/ Read(t) \/ Write(t) \/ Unlock(t)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
Total == Sum(cell, Cells)
Sequential == Sum([i \in Iterations |-> Contribution(i)], Iterations)

\* every iteration is executed exactly once, whatever the schedule
Once == Finished => \A i \in Iterations : count[i] = 1
\* without conflicts the result is the sequential one, in every cell
Independent ==
    (Finished /\ ConflictFree(acc)) =>
        /\ Total = Sequential
        /\ Layout = "own" => \A i \in Iterations : cell[i] = Contribution(i)
\* layouts that are free of conflicts under every schedule
NeverConflicts == ConflictFree(acc)
Right == Finished => Total = Sequential
\* whenever an update was lost the accesses of that very run show a conflict
Detects == (Finished /\ Total # Sequential) => ~ConflictFree(acc)

Emit == (Finished /\ Dump) => PrintT(<<"BEHAVIOUR", ToString(hist)>>)
=============================================================================
