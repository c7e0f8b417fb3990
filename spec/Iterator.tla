------------------------------- MODULE Iterator -------------------------------
(***************************************************************************)
(* Random access iterators over consecutive integers.  A configuration is  *)
(* the position of every iterator; an operation changes at most the two    *)
(* iterators it is applied to and yields a result.                         *)
(*                                                                         *)
(* The effect of every operation is given by Effect; the model checks it   *)
(* against walking in unit steps (the definition of the arithmetic of      *)
(* random access iterators by ++ and --).                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* operations on iterator a (and b), with the offset n: positions afterwards and the result
After(pos, do, a, b, n) ==
    CASE do \in {"preinc", "postinc"} -> [pos EXCEPT ![a] = @ + 1]
      [] do \in {"predec", "postdec"} -> [pos EXCEPT ![a] = @ - 1]
      [] do = "addassign" -> [pos EXCEPT ![a] = @ + n]
      [] do = "subassign" -> [pos EXCEPT ![a] = @ - n]
      [] do = "assign" -> [pos EXCEPT ![a] = pos[b]]
      [] do \in {"swap", "stdswap"} -> [pos EXCEPT ![a] = pos[b], ![b] = pos[a]]
      [] do = "setplus" -> [pos EXCEPT ![a] = pos[b] + n]
      [] do = "setminus" -> [pos EXCEPT ![a] = pos[b] - n]
      [] OTHER -> pos
Result(pos, do, a, b, n) ==
    CASE do = "preinc" -> pos[a] + 1
      [] do = "predec" -> pos[a] - 1
      [] do \in {"postinc", "postdec", "deref", "copy"} -> pos[a]
      [] do = "addassign" -> pos[a] + n
      [] do = "subassign" -> pos[a] - n
      [] do \in {"plus", "nplus", "index", "next"} -> pos[a] + n
      [] do \in {"minus", "prev"} -> pos[a] - n
      [] do = "setplus" -> pos[b] + n
      [] do = "setminus" -> pos[b] - n
      [] do = "assign" -> pos[b]
      [] do \in {"swap", "stdswap"} -> pos[b]
      [] do \in {"diff", "distance"} -> pos[a] - pos[b]
Ops == {"preinc", "postinc", "predec", "postdec", "addassign", "subassign", "assign", "swap", "stdswap", "setplus",
        "setminus", "copy", "deref", "plus", "nplus", "index", "next", "minus", "prev", "diff", "distance"}
\* <, >, <=, >=, ==, !=
Comparisons(x, y) == <<x < y, x > y, x <= y, x >= y, x = y, x # y>>
-----------------------------------------------------------------------------
CONSTANTS Low, High, Names, Offsets, MaxOps, Dump
VARIABLES pos, unit, ops, start     \* unit: the same iterators, moved only by single steps
vars == <<pos, unit, ops, start>>
Init == pos \in [Names -> Low..High] /\ unit = pos /\ ops = <<>> /\ start = pos
Step(k, x) == x + k
RECURSIVE Walk(_, _)
Walk(x, n) == IF n = 0 THEN x ELSE IF n > 0 THEN Walk(x + 1, n - 1) ELSE Walk(x - 1, n + 1)
InRange(p) == \A k \in Names : p[k] \in Low..High
Unit(do, a, b, n) ==
    CASE do \in {"preinc", "postinc"} -> [unit EXCEPT ![a] = Walk(@, 1)]
      [] do \in {"predec", "postdec"} -> [unit EXCEPT ![a] = Walk(@, -1)]
      [] do = "addassign" -> [unit EXCEPT ![a] = Walk(@, n)]
      [] do = "subassign" -> [unit EXCEPT ![a] = Walk(@, -n)]
      [] do = "assign" -> [unit EXCEPT ![a] = unit[b]]
      [] do \in {"swap", "stdswap"} -> [k \in Names |-> IF k = a THEN unit[b] ELSE IF k = b THEN unit[a] ELSE unit[k]]
      [] do = "setplus" -> [unit EXCEPT ![a] = Walk(unit[b], n)]
      [] do = "setminus" -> [unit EXCEPT ![a] = Walk(unit[b], -n)]
      [] OTHER -> unit
Do(do, a, b, n) ==
    /\ Len(ops) < MaxOps
    /\ InRange(After(pos, do, a, b, n)) /\ (do # "diff" /\ do # "distance" => Result(pos, do, a, b, n) \in Low..High)
    /\ pos' = After(pos, do, a, b, n) /\ unit' = Unit(do, a, b, n)
    /\ ops' = Append(ops, <<do, a, b, n>>) /\ UNCHANGED start
Move == \E a \in Names, n \in Offsets, do \in {"addassign", "subassign"} : Do(do, a, a, n)
Single == \E a \in Names, do \in {"preinc", "postinc", "predec", "postdec"} : Do(do, a, a, 0)
Exchange == \E a, b \in Names, do \in {"assign", "swap"} : Do(do, a, b, 0)
Derive == \E a, b \in Names, n \in Offsets, do \in {"setplus", "setminus"} : Do(do, a, b, n)
Next == Move \/ Single \/ Exchange \/ Derive
Spec == Init /\ [][Next]_vars

MatchesUnitSteps == pos = unit
\* laws of random access: difference is the number of steps, there and back, comparisons follow the difference
Laws == \A a, b \in Names :
            LET x == Result(pos, "diff", a, b, 0)
                y == Result(pos, "diff", b, a, 0)
            IN  /\ Walk(unit[b], x) = unit[a] /\ x = -y
                /\ \A n \in Offsets : Result([pos EXCEPT ![a] = Result(pos, "plus", a, a, n)], "minus", a, a, n) = pos[a]
                /\ Comparisons(pos[a], pos[b]) = <<x < 0, x > 0, x <= 0, x >= 0, x = 0, x # 0>>
Emit == Dump => (Len(ops) = MaxOps => PrintT(<<"BEHAVIOUR", ToJson(<<start, ops>>)>>))
=============================================================================
