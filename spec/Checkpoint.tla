------------------------------- MODULE Checkpoint -------------------------------
(***************************************************************************)
(* Checkpoints are numbered pairs of files: the vector, written in pieces,  *)
(* then a line with the time.  A crash may happen between any two writes.   *)
(* Files of an older run may be there; they are overwritten one by one.     *)
(* TimeFirst writes the time before the vector, ~ClearFirst leaves the time *)
(* of the older run while the vector is overwritten (both shown wrong).     *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* what may be on disk for the k-th of the checkpoints `saved` after `returned` calls: found[k] = [info, vec],
\* info = <<>> (nothing readable) or <<time>>, vec = <<>> or <<vector>>; `old`: checkpoints of an older run
Allowed(saved, old, returned, crashed, found) ==
    LET Kept(k) == IF k <= Len(old) THEN found[k].info = <<old[k].t>> /\ found[k].vec = <<old[k].vec>>
                   ELSE found[k].info = <<>> /\ found[k].vec = <<>>
    IN
    /\ \A k \in 1..returned : found[k].info = <<saved[k].t>> /\ found[k].vec = <<saved[k].vec>>
    /\ ~crashed => returned = Len(saved)
    \* an interrupted call: a time on disk vouches for the vector beside it
    /\ \A k \in (returned + 1)..Len(found) :
          IF k = returned + 1 /\ k <= Len(saved)
          THEN \/ found[k].info = <<>>
               \/ found[k].vec = <<saved[k].vec>> /\ (k <= Len(old) => found[k].info # <<old[k].t>>)
               \/ k <= Len(old) /\ Kept(k)
          ELSE Kept(k)
-----------------------------------------------------------------------------
CONSTANTS Vectors, MaxCalls, TimeFirst, ClearFirst, Old
VARIABLES calls, part, disk, pc
vars == <<calls, part, disk, pc>>
\* disk[k] = [info, vec]: pieces written so far; a vector is readable if it is complete
Empty == [info |-> <<>>, vec |-> <<>>]
OldVec == <<9>>
Older == [k \in 1..Old |-> [t |-> -k, vec |-> OldVec]]
Init == calls = <<>> /\ part = 0 /\ disk = [k \in 1..Old |-> [info |-> <<-k>>, vec |-> OldVec]] /\ pc = "idle"
Now == Len(calls)
Call == /\ pc = "idle" /\ Len(calls) < MaxCalls
        /\ \E v \in Vectors : calls' = Append(calls, [t |-> Len(calls) + 1, vec |-> v])
        /\ disk' = IF Now = Len(disk) THEN Append(disk, Empty) ELSE IF ClearFirst THEN [disk EXCEPT ![Now + 1].info = <<>>] ELSE disk
        /\ part' = 0 /\ pc' = (IF TimeFirst THEN "time" ELSE "open")
Open == pc = "open" /\ disk' = [disk EXCEPT ![Now].vec = <<>>] /\ pc' = "vector" /\ UNCHANGED <<calls, part>>
Piece == /\ pc = "vector" /\ part < Len(calls[Now].vec)
         /\ disk' = [disk EXCEPT ![Now].vec = Append(@, calls[Now].vec[part + 1])] /\ part' = part + 1 /\ UNCHANGED <<calls, pc>>
VectorDone == pc = "vector" /\ part = Len(calls[Now].vec) /\ pc' = (IF TimeFirst THEN "idle" ELSE "time") /\ UNCHANGED <<calls, part, disk>>
Time == /\ pc = "time" /\ disk' = [disk EXCEPT ![Now].info = <<calls[Now].t>>]
        /\ pc' = (IF TimeFirst THEN "open" ELSE "idle") /\ UNCHANGED <<calls, part>>
Crash == pc \notin {"idle", "crashed"} /\ pc' = "crashed" /\ UNCHANGED <<calls, part, disk>>
Next == Call \/ Open \/ Piece \/ VectorDone \/ Time \/ Crash
Spec == Init /\ [][Next]_vars
Readable == [k \in 1..Len(disk) |-> [info |-> disk[k].info,
                vec |-> IF (k <= Now /\ disk[k].vec = calls[k].vec) \/ (k <= Old /\ disk[k].vec = OldVec) THEN <<disk[k].vec>> ELSE <<>>]]
Returned == IF pc = "idle" THEN Now ELSE Now - 1
\* nothing is ever lost or vouched for in vain, at every crash point
Durable == Allowed(calls, Older, Returned, TRUE, Readable)
=============================================================================
