--------------------------------- MODULE Text ---------------------------------
(***************************************************************************)
(* What is printed for indices, operators, products, Kronecker deltas,      *)
(* prefactors, terms and tuples.  Characters outside ASCII are written      *)
(* <codepoint> here (and are never part of a symbol's name in the model).   *)
(* The model prints two values item by item, the way the code copies a list *)
(* with delimiters; when both are complete equal texts must belong to equal *)
(* values.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
Dot == " <22C5> "
RECURSIVE TJoin(_, _)
TJoin(parts, d) == IF parts = <<>> THEN "" ELSE IF Len(parts) = 1 THEN parts[1] ELSE parts[1] \o d \o TJoin(Tail(parts), d)
TMap(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
\* an index is <<"n", number>>, <<"b", spin>> or <<"s", name>>
IndexText(arrows, x) == CASE x[1] = "n" -> ToString(x[2])
                          [] x[1] = "s" -> x[2]
                          [] OTHER -> IF arrows THEN (IF x[2] THEN "<2191>" ELSE "<2193>") ELSE (IF x[2] THEN "1" ELSE "0")
\* an operator is <<creator, indices>>
OperatorHead(op) == IF op[1] THEN "c^<2020>_{" ELSE "c_{"
OperatorText(arrows, op) == OperatorHead(op) \o TJoin(TMap(LAMBDA x : IndexText(arrows, x), op[2]), ",") \o "}"
ProductText(arrows, ops) == TJoin(TMap(LAMBDA op : OperatorText(arrows, op), ops), " ")
DeltaText(d) == "<3B4>_{" \o d[1] \o "," \o d[2] \o "}"
\* numbers are given in quarters, or pairs of them (complex)
Quarters(q) == LET a == IF q < 0 THEN -q ELSE q IN
    (IF q < 0 THEN "-" ELSE "") \o ToString(a \div 4) \o [x \in 0..3 |-> CASE x = 0 -> "" [] x = 1 -> ".25" [] x = 2 -> ".5" [] OTHER -> ".75"][a - 4 * (a \div 4)]
NumberText(cx, v) == IF cx THEN "(" \o Quarters(v[1]) \o "," \o Quarters(v[2]) \o ")" ELSE Quarters(v[1])
\* a prefactor is [value, cx (complex type), signed, deltas]; 1 and the digit of -1 are not written in front of deltas
PrefactorHead(p) == IF p.deltas # <<>> /\ p.value = <<4, 0>> THEN ""
                    ELSE IF p.deltas # <<>> /\ ~p.cx /\ p.value = <<-4, 0>> THEN "-"
                    ELSE NumberText(p.cx, p.value) \o (IF p.deltas = <<>> THEN "" ELSE Dot)
PrefactorText(p) == PrefactorHead(p) \o TJoin(TMap(DeltaText, p.deltas), " ")
TermText(arrows, t) == PrefactorText(t.p) \o (IF t.ops = <<>> THEN "" ELSE Dot \o ProductText(arrows, t.ops))
TupleText(xs, d, left, right) == left \o TJoin(xs, d) \o right
-----------------------------------------------------------------------------
CONSTANTS Values,     \* terms [p, ops] with the same number types
          Arrows
VARIABLES pair, out, at
vars == <<pair, out, at>>
Items(t) == <<PrefactorHead(t.p)>> \o TMap(DeltaText, t.p.deltas) \o TMap(LAMBDA op : OperatorText(Arrows, op), t.ops)
Separator(t, i) == LET d == Len(t.p.deltas) IN
    IF i = 1 THEN "" ELSE IF i = 2 /\ d > 0 THEN "" ELSE IF i = d + 2 THEN Dot ELSE " "
Init == pair \in Values \X Values /\ out = <<"", "">> /\ at = <<1, 1>>
PrintItem(w) == LET t == pair[w] IN
    /\ at[w] <= Len(Items(t)) /\ (w = 2 => at[1] > Len(Items(pair[1])))
    /\ out' = [out EXCEPT ![w] = @ \o Separator(t, at[w]) \o Items(t)[at[w]]]
    /\ at' = [at EXCEPT ![w] = @ + 1] /\ UNCHANGED pair
Next == PrintItem(1) \/ PrintItem(2)
Spec == Init /\ [][Next]_vars
Complete(w) == at[w] > Len(Items(pair[w]))
IsText == \A w \in {1, 2} : Complete(w) => out[w] = TermText(Arrows, pair[w])
Injective == Complete(1) /\ Complete(2) /\ out[1] = out[2] => pair[1] = pair[2]
=============================================================================
