------------------------------ MODULE PersistTrace ------------------------------
EXTENDS Integers, FiniteSets, Sequences, SequencesExt, TraceKit
C == INSTANCE Checkpoint WITH Vectors <- {}, MaxCalls <- 0, TimeFirst <- FALSE, ClearFirst <- TRUE, Old <- 0, calls <- 0, part <- 0, disk <- 0, pc <- 0
F == INSTANCE OutputFile WITH Alphabet <- {}, MaxLines <- 0, MaxEntries <- 0, file <- 0, entries <- 0, pos <- 0, copy <- 0, got <- 0
O == INSTANCE Options WITH Keys <- {}, Values <- {}, MaxRuns <- 0, runs <- 0
VARIABLES runs
tvars == <<l, runs>>
TraceInit == l = 1 /\ runs = <<>>
Begin == IsEvent("begin") /\ runs' = <<>>
Checkpoints == /\ IsEvent("checkpoints") /\ UNCHANGED runs
               /\ Ev.crashed \/ Ev.normal
               /\ Holds(C!Allowed(Ev.saved, Ev.old, Ev.returned, Ev.crashed, Ev.found))
Truncate == /\ IsEvent("truncate") /\ UNCHANGED runs /\ Ev.normal
            /\ Holds(Ev.now = F!Truncated(Ev.lines, Ev.entries) /\ Ev.bak = Ev.lines)
NextLines == /\ IsEvent("nextlines") /\ UNCHANGED runs /\ Ev.normal
             /\ Holds(Ev.got = [k \in 1..Ev.calls |-> F!Delivered(Ev.lines, k)])
Huge == IsEvent("huge") /\ UNCHANGED runs /\ Ev.normal /\ Holds(Ev.skipped = F!Skippable(Ev.shape))
Defaults == [k \in {"N", "J", "dt", "tag", "note", "count", "Nx", "J_nn", "dt_out"} |->
    CASE k = "N" -> "16" [] k = "Nx" -> "5" [] k = "J_nn" -> "32" [] k = "dt_out" -> "128" [] k = "J" -> "64" [] k = "dt" -> "8" [] k = "tag" -> "plain" [] k = "note" -> "a (default) note with words" [] OTHER -> "100"]
Matches(list, f) == /\ Len(list) = Cardinality(DOMAIN f) /\ \A k \in DOMAIN f : O!Has(list, k) /\ O!Get(list, k) = f[k]
\* a run starts with the options of run `from`'s response file (0: none); its header and its options agree
Run == /\ IsEvent("run") /\ Ev.normal /\ Ev.row /\ Ev.id = Len(runs) + 1
       /\ LET file == IF Ev.from = 0 THEN <<>> ELSE runs[Ev.from]
              want == O!Effective(Defaults, Ev.cli, file)
          IN  Holds(Matches(Ev.vars, want) /\ Matches(Ev.header, want) /\ Ev.wrote = (Ev.from = 0))
       /\ runs' = Append(runs, Ev.vars)
Missing == IsEvent("missing") /\ Ev.reported /\ UNCHANGED runs
\* matrices are written to numbered places one after the other; the last one of each place is found there
Latest(wrote, s) == LET ks == {k \in 1..Len(wrote) : wrote[k].slot = s} IN IF ks = {} THEN <<>> ELSE <<wrote[CHOOSE k \in ks : \A j \in ks : j <= k].matrix>>
Matrices == IsEvent("matrices") /\ UNCHANGED runs /\ Ev.normal /\ Holds(Ev.found = [s \in 1..3 |-> Latest(Ev.wrote, s - 1)])
\* the files of a run lie beside its output, named after it
Beside == IsEvent("beside") /\ UNCHANGED runs /\ Ev.normal /\ Ev.row /\ Ev.response /\ Holds(Ev.names = O!Names(Ev.base, Ev.ext))
TraceNext == Begin \/ Matrices \/ Beside \/ Checkpoints \/ Truncate \/ NextLines \/ Huge \/ Run \/ Missing
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
