--------------------------- MODULE CommutatorTrace ---------------------------
(***************************************************************************)
(* Decides recorded calls commutate(a, b, c): what was in c before is      *)
(* untouched, the inputs are unchanged, and the appended terms are the     *)
(* operator A B - B A.                                                     *)
(***************************************************************************)
EXTENDS Fock, TraceKit

TraceInit == l = 1

Begin == IsEvent("begin")

Call ==
    /\ IsEvent("commutate")
    /\ LET before == Ev.before
           after  == Ev.after
           a == Ev.a
           b == Ev.b
       IN /\ Ev.a2 = a /\ Ev.b2 = b
          /\ Len(after) >= Len(before)
          /\ SubSeq(after, 1, Len(before)) = before
          /\ LET new == SubSeq(after, Len(before) + 1, Len(after))
                 num == Numbering(IdxSet({a, b} \cup {new[i] : i \in 1..Len(new)}))
             IN Holds(SameOperator(PToModes(new, num), Commutator(TToModes(a, num), TToModes(b, num))))

TraceNext == Begin \/ Call
TraceSpec == TraceInit /\ [][TraceNext]_l
=============================================================================
