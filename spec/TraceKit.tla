------------------------------ MODULE TraceKit ------------------------------
(* Shared shell of all trace specifications: the recorded trace, the cursor *)
(* and the acceptance condition.                                            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l          \* position of the next event in Trace

IsEvent(name) == l <= Len(Trace) /\ Trace[l].op = name /\ Trace[l].ok /\ l' = l + 1
Ev == Trace[l]

\* evaluated as a value: TLC expands quantifiers in actions element by element, nested on its stack
Holds(p) == p = TRUE

Accepted ==
    LET d == TLCGet("stats").diameter - 1
    IN  IF d = Len(Trace) THEN PrintT(<<"TRACE_ACCEPTED", d>>)
        ELSE PrintT(<<"TRACE_REJECTED", d + 1>>) /\ FALSE
=============================================================================
