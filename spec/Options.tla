-------------------------------- MODULE Options --------------------------------
(***************************************************************************)
(* Options of a run come from the command line, a response file, defaults   *)
(* (in this order).  A run without a response file writes one with all its   *)
(* options.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences
Has(list, k) == \E x \in 1..Len(list) : list[x][1] = k
Get(list, k) == list[CHOOSE x \in 1..Len(list) : list[x][1] = k][2]
\* cli, file: lists of <<key, value>>; defaults: function
Effective(defaults, cli, file) ==
    [k \in DOMAIN defaults |-> IF Has(cli, k) THEN Get(cli, k) ELSE IF Has(file, k) THEN Get(file, k) ELSE defaults[k]]
\* output, options, log, matrix and the beginning of checkpoint names of a run, by directory and stem of its output, and ending
Names(base, ext) == <<base \o ext, base \o ".rsp", base \o ".log", base \o "_matrix.blaze", base \o "_checkpoint_">>
-----------------------------------------------------------------------------
CONSTANTS Keys, Values, MaxRuns
VARIABLES runs
vars == <<runs>>
Defaults == [k \in Keys |-> 0]
Lists == {s \in UNION {[1..n -> Keys \X Values] : n \in 0..2} : \A x, y \in 1..Len(s) : x # y => s[x][1] # s[y][1]}
Init == runs = <<>>
\* processing: defaults first, then the file over defaults, the command line is final
Store(vals, final, list) == [k \in Keys |-> IF k \notin final /\ Has(list, k) THEN Get(list, k) ELSE vals[k]]
Run == /\ Len(runs) < MaxRuns
       /\ \E cli \in Lists, from \in 0..Len(runs) :
            /\ from > 0 => runs[from].wrote # <<>>
            /\ LET first == Store(Defaults, {}, cli)
                   final == {k \in Keys : Has(cli, k)}
                   file == IF from = 0 THEN <<>> ELSE runs[from].wrote
                   vals == Store(first, final, file)
                   seq == CHOOSE s \in [1..2 -> Keys] : \A x, y \in 1..2 : x # y => s[x] # s[y]
               IN  runs' = Append(runs, [cli |-> cli, from |-> from, vals |-> vals,
                                         wrote |-> IF from = 0 THEN [x \in 1..2 |-> <<seq[x], vals[seq[x]]>>] ELSE <<>>])
Next == Run
Spec == Init /\ [][Next]_vars
Precedence == \A r \in 1..Len(runs) :
    runs[r].vals = Effective(Defaults, runs[r].cli, IF runs[r].from = 0 THEN <<>> ELSE runs[runs[r].from].wrote)
Replays == \A r \in 1..Len(runs) : runs[r].from > 0 /\ runs[r].cli = <<>> => runs[r].vals = runs[runs[r].from].vals
=============================================================================
