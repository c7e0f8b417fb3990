------------------------------- MODULE TripletsTrace -------------------------------
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, TraceKit
T == INSTANCE Triplets WITH Cols <- {}, Values <- {}, MaxLen <- 0, list <- 0, sorted <- 0, out <- 0, cur <- 0, pos <- 0, phase <- 0
M == INSTANCE MatrixCheck WITH Dims <- {}, Entries <- {}, Tol <- 1, m <- 0, rows <- 0, cols <- 0, i <- 0, j <- 0, herm <- 0, symm <- 0, zero <- 0, phase <- 0
VARIABLES lists
tvars == <<l, lists>>
TraceInit == l = 1 /\ lists = <<>>
Begin == IsEvent("begin") /\ lists' = <<>>
\* triplet lists: all lists are logged after every operation
Rec(x) == [y \in 1..Len(x) |-> [r |-> x[y][1], c |-> x[y][2], v |-> x[y][3]]]
Others(id, new) == Len(Ev.lists) = Len(lists) /\ \A x \in 1..Len(lists) : x # id => Rec(Ev.lists[x]) = lists[x]
New == IsEvent("new") /\ Holds(/\ Len(Ev.lists) = Len(lists) + 1 /\ Ev.lists[Len(lists) + 1] = <<>>
                               /\ \A x \in 1..Len(lists) : Rec(Ev.lists[x]) = lists[x])
       /\ lists' = Append(lists, <<>>)
Add == IsEvent("add")
       /\ LET new == Append(lists[Ev.id], [r |-> Ev.t[1], c |-> Ev.t[2], v |-> Ev.t[3]])
          IN  Holds(Others(Ev.id, new) /\ Rec(Ev.lists[Ev.id]) = new) /\ lists' = [lists EXCEPT ![Ev.id] = new]
Clear == IsEvent("clear") /\ Holds(Others(Ev.id, <<>>) /\ Ev.lists[Ev.id] = <<>>) /\ lists' = [lists EXCEPT ![Ev.id] = <<>>]
Sort == IsEvent("sort")
        /\ LET new == Rec(Ev.lists[Ev.id])
           IN  Holds(Others(Ev.id, new) /\ T!IsSortOf(new, lists[Ev.id])) /\ lists' = [lists EXCEPT ![Ev.id] = new]
\* the merged list is a new list, the old one stays
Unique == IsEvent("unique")
          /\ LET new == Rec(Ev.res)
             IN  /\ Holds(Others(0, <<>>) /\ T!IsMergeOf(new, lists[Ev.id]))
                 /\ lists' = Append(lists, new)
\* exact for sorted lists (as all users call it); for other lists a positive answer of neighbours is still right
HasUnique == IsEvent("hasunique") /\ UNCHANGED lists
             /\ Holds(LET s == lists[Ev.id] IN /\ Others(0, <<>>)
                        /\ (T!Sorted(s) => Ev.res = ~T!HasDuplicates(s))
                        /\ (~Ev.res => T!HasDuplicates(s)))
\* function matrices print one line per row, every entry with a sign and one digit
Signed(x) == (IF x < 0 THEN "" ELSE "+") \o ToString(x)
Printed(e, scalar) == CASE scalar = "integer" -> Signed(e[1])
                        [] scalar = "float" -> Signed(e[1]) \o ".0"
                        [] OTHER -> "(" \o Signed(e[1]) \o ".0," \o Signed(e[2]) \o ".0)"
Check == IsEvent("check") /\ UNCHANGED lists
         /\ Holds(/\ Ev.quadratic = M!Quadratic(Ev.rows, Ev.cols)
                  /\ Ev.symmetric = M!Symmetric(Ev.m, Ev.rows, Ev.cols, Ev.tol)
                  /\ Ev.hermitian = M!Hermitian(Ev.m, Ev.rows, Ev.cols, Ev.tol)
                  /\ ("zero" \in DOMAIN Ev => Ev.zero = M!Zero(Ev.m, Ev.rows, Ev.cols, Ev.tol))
                  /\ Ev.read = Ev.m
                  /\ ("after" \in DOMAIN Ev => Ev.after = "7.25")
                  /\ ("text" \in DOMAIN Ev => Ev.text = [x \in 1..Ev.rows |-> [y \in 1..Ev.cols |-> Printed(Ev.m[x][y], Ev.scalar)]]))
\* a large matrix: zero (0), real and symmetric (1), complex and symmetric (2), Hermitian (3), with deviations at single
\* places (given as <<row, column, re, im>>); only they can spoil what holds for the pattern, and never mend what does not
Large == IsEvent("large") /\ UNCHANGED lists
         /\ Holds(LET Base(i, j) ==
                         LET im == IF Ev.pattern < 2 THEN 0 ELSE (i * j) % 4
                         IN  <<IF Ev.pattern = 0 THEN 0 ELSE (i + j) % 3,
                               IF Ev.pattern = 3 /\ i >= j THEN (IF i = j THEN 0 ELSE -im) ELSE im>>
                      At(i, j) ==
                         FoldLeft(LAMBDA a, d : IF d[1] = i /\ d[2] = j THEN <<a[1] + d[3], a[2] + d[4]>> ELSE a, Base(i, j), Ev.devs)
                      Places == {<<d[1], d[2]>> : d \in ToSet(Ev.devs)}
                  IN  /\ Ev.quadratic
                      /\ Ev.symmetric = (Ev.pattern # 3 /\ \A p \in Places : At(p[1], p[2]) = At(p[2], p[1]))
                      /\ Ev.hermitian = (Ev.pattern # 2 /\ \A p \in Places : At(p[1], p[2]) = M!Conj(At(p[2], p[1])))
                      /\ ("zero" \in DOMAIN Ev => Ev.zero = (Ev.pattern = 0 /\ \A p \in Places : At(p[1], p[2]) = <<0, 0>>)))
Compare == IsEvent("compare") /\ UNCHANGED lists
           /\ Holds(LET e == M!Equal(Ev.a, Ev.ar, Ev.ac, Ev.b, Ev.br, Ev.bc, Ev.tol)
                    IN  Ev.eq = e /\ Ev.ne = ~e)
\* what the library knows about a type: vectors are no matrices, a vector is either a row or a column; the dimensions of a
\* matrix are its own and a column vector is a matrix of one column
Traits == IsEvent("traits") /\ UNCHANGED lists
          /\ Holds(/\ Ev.matrix = (Ev.kind = "matrix")
                   /\ Ev.vector = (Ev.kind \in {"row", "column"})
                   /\ Ev.row = (Ev.kind = "row") /\ Ev.column = (Ev.kind = "column")
                   /\ Ev.scalar = Ev.written
                   /\ ("size" \in DOMAIN Ev => Ev.dims = (IF Ev.kind = "matrix" THEN Ev.size ELSE <<Ev.size[1], 1>>)))
TraceNext == Begin \/ New \/ Add \/ Clear \/ Sort \/ Unique \/ HasUnique \/ Check \/ Large \/ Compare \/ Traits
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
