-------------------------------- MODULE RunLoop --------------------------------
(***************************************************************************)
(* The time loop of the simulation programs: observe at t = 0, then         *)
(* integrate step by step up to t_end and observe whenever the interval has *)
(* passed.  Times are accumulated sums; in the model a step is D units long *)
(* and every addition may be off by one unit (rounding).                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* the schedule itself: the steps after which rows are written in a run of n steps
Every(I) == IF I = 0 THEN 1 ELSE I
MeasuredSteps(n, I) == [k \in 1..(1 + n \div Every(I)) |-> (k - 1) * Every(I)]
\* number of steps that reach the end p/q with the step a/b: the least n with n a/b >= p/q (none for an end that is not
\* positive); if a multiple of the step hits the end, rounding may take one step more
Ceil(x, y) == (x + y - 1) \div y
StepsNeeded(p, q, a, b) == IF p <= 0 THEN 0 ELSE Ceil(p * b, q * a)
RightNumberOfSteps(n, p, q, a, b, exact) ==
    \/ n = StepsNeeded(p, q, a, b)
    \/ ~exact /\ p > 0 /\ (p * b) % (q * a) = 0 /\ n = StepsNeeded(p, q, a, b) + 1
-----------------------------------------------------------------------------
CONSTANTS D, MaxSteps, Intervals
VARIABLES t, last, n, end, interval, rows, pc
vars == <<t, last, n, end, interval, rows, pc>>
Round(x, y) == (2 * x + y) \div (2 * y)
Passed == last < t /\ Round(t - last, D) >= interval
Init == /\ t = 0 /\ last = 0 /\ n = 0 /\ rows = <<0>> /\ pc = "measure"
        /\ end \in {k * D + o : k \in 0..MaxSteps, o \in {0, D \div 3}} /\ interval \in Intervals
Enter == pc = "measure" /\ t < end
Measure == Enter /\ Passed /\ rows' = Append(rows, n) /\ last' = t /\ pc' = "step" /\ UNCHANGED <<t, n, end, interval>>
Skip == Enter /\ ~Passed /\ pc' = "step" /\ UNCHANGED <<t, last, n, end, interval, rows>>
Step == /\ pc = "step" /\ \E e \in {-1, 0, 1} : t' = t + D + e
        /\ n' = n + 1 /\ pc' = "measure" /\ UNCHANGED <<last, end, interval, rows>>
Final == /\ pc = "measure" /\ ~(t < end) /\ pc' = "done"
         /\ rows' = (IF Passed THEN Append(rows, n) ELSE rows) /\ last' = (IF Passed THEN t ELSE last)
         /\ UNCHANGED <<t, n, end, interval>>
Next == Measure \/ Skip \/ Step \/ Final
Spec == Init /\ [][Next]_vars
OnSchedule == pc = "done" => rows = MeasuredSteps(n, interval)
Ends == pc = "done" => RightNumberOfSteps(n, end, 1, D, 1, FALSE) \/ (n + 1 = StepsNeeded(end, 1, D, 1))
Increasing == \A k \in 2..Len(rows) : rows[k - 1] < rows[k]
=============================================================================
