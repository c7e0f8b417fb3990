------------------------------- MODULE OutputFile -------------------------------
(***************************************************************************)
(* Output files are lists of lines (character codes): rows, comments and    *)
(* blank lines.  Truncating to a number of rows keeps everything up to and  *)
(* including that row; the reader delivers the rows one by one and an empty *)
(* line at the end of the file.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt
Blank(c) == c \in {9, 11, 12, 13, 32}
\* a comment or blank line
RECURSIVE FirstVisible(_, _)
FirstVisible(s, k) == IF k > Len(s) THEN 0 ELSE IF Blank(s[k]) THEN FirstVisible(s, k + 1) ELSE s[k]
Skippable(s) == FirstVisible(s, 1) \in {0, 35}
RowsOf(lines) == SelectSeq(lines, LAMBDA s : ~Skippable(s))
RowCount(lines) == Len(RowsOf(lines))
\* the shortest beginning with that many rows, or everything
Truncated(lines, n) ==
    LET enough == {k \in 0..Len(lines) : RowCount(SubSeq(lines, 1, k)) = n}
    IN  IF enough = {} THEN lines ELSE SubSeq(lines, 1, CHOOSE k \in enough : \A j \in enough : k <= j)
Delivered(lines, k) == IF k <= RowCount(lines) THEN RowsOf(lines)[k] ELSE <<>>
-----------------------------------------------------------------------------
CONSTANTS Alphabet, MaxLines, MaxEntries
VARIABLES file, entries, pos, copy, got
vars == <<file, entries, pos, copy, got>>
Init == /\ file \in UNION {[1..n -> Alphabet] : n \in 0..MaxLines} /\ entries \in 0..MaxEntries
        /\ pos = 0 /\ copy = <<>> /\ got = <<>>
Counted == RowCount(copy)
CopyLine == /\ Counted < entries /\ pos < Len(file) /\ pos' = pos + 1 /\ copy' = Append(copy, file[pos + 1])
            /\ got' = (IF Skippable(file[pos + 1]) THEN got ELSE Append(got, file[pos + 1])) /\ UNCHANGED <<file, entries>>
Next == CopyLine
Spec == Init /\ [][Next]_vars
Finished == ~(Counted < entries /\ pos < Len(file))
KeepsRows == Finished => /\ copy = Truncated(file, entries)
                         /\ RowsOf(copy) = SubSeq(RowsOf(file), 1, IF entries < RowCount(file) THEN entries ELSE RowCount(file))
                         /\ got = [k \in 1..Len(got) |-> Delivered(file, k)]
                         /\ Truncated(copy, entries) = copy
=============================================================================
