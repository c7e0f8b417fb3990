------------------------------- MODULE TextTrace -------------------------------
EXTENDS Integers, Sequences, TraceKit
T == INSTANCE Text WITH Values <- {}, Arrows <- TRUE, pair <- 0, out <- 0, at <- 0
tvars == <<l>>
TraceInit == l = 1
Begin == IsEvent("begin")
\* writing leaves the format of the stream as it was: Ev.again is a plain number written afterwards
Same(text) == Ev.text = text /\ Ev.after = "7.5"
Operator == IsEvent("operator") /\ Holds(Same(T!OperatorText(Ev.arrows, Ev.o)))
Monomial == IsEvent("monomial") /\ Holds(Same(T!ProductText(Ev.arrows, Ev.ops)))
Term == IsEvent("term") /\ Holds(Same(T!TermText(Ev.arrows, [p |-> Ev.p, ops |-> Ev.ops])))
Delta == IsEvent("delta") /\ Holds(Same(T!DeltaText(Ev.d)))
Prefactor == IsEvent("prefactor") /\ Holds(Same(T!PrefactorText(Ev.p)))
\* numbers other than one and minus one are written out, as digits of the stream's precision
Fine == IsEvent("fine") /\ Holds(Same(Ev.number \o (IF Ev.deltas = <<>> THEN "" ELSE T!Dot \o T!TJoin(T!TMap(T!DeltaText, Ev.deltas), " "))))
Tuple == IsEvent("tuple") /\ Holds(Same(T!TupleText(Ev.xs, Ev.delim, Ev.left, Ev.right)))
Index == IsEvent("index")
         /\ Holds(LET base == IF Ev.type = "space" THEN "r" ELSE IF Ev.type = "momentum" THEN "k" ELSE "<3C3>"
                  IN  Same(CASE Ev.how = "default" -> base
                             [] Ev.how = "number" -> base \o "_" \o ToString(Ev.n)
                             [] OTHER -> Ev.name))
TraceNext == Begin \/ Operator \/ Monomial \/ Term \/ Delta \/ Prefactor \/ Fine \/ Tuple \/ Index
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
