------------------------------- MODULE MatrixCheck -------------------------------
(***************************************************************************)
(* Predicates on matrices (sequences of rows of complex integers with given *)
(* numbers of rows and columns): the scans of the lower triangle against    *)
(* the definitions.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences
\* entries count as equal when both parts differ by less than Tol (1: exactly equal)
CONSTANTS Dims, Entries, Tol
Near(a, b, tol) == /\ a[1] - b[1] < tol /\ b[1] - a[1] < tol
                   /\ a[2] - b[2] < tol /\ b[2] - a[2] < tol
Conj(a) == <<a[1], -a[2]>>
Quadratic(rows, cols) == rows = cols
Symmetric(m, rows, cols, tol) == rows = cols /\ \A i, j \in 1..rows : Near(m[i][j], m[j][i], tol)
Hermitian(m, rows, cols, tol) == rows = cols /\ \A i, j \in 1..rows : Near(m[i][j], Conj(m[j][i]), tol)
Zero(m, rows, cols, tol) == \A i \in 1..rows, j \in 1..cols : Near(m[i][j], <<0, 0>>, tol)
Equal(m, mr, mc, n, nr, nc, tol) == mr = nr /\ mc = nc /\ \A i \in 1..mr, j \in 1..mc : Near(m[i][j], n[i][j], tol)
-----------------------------------------------------------------------------
VARIABLES m, rows, cols, i, j, herm, symm, zero, phase
vars == <<m, rows, cols, i, j, herm, symm, zero, phase>>
Init == /\ \E d \in Dims : rows = d[1] /\ cols = d[2]
        /\ m \in [1..rows -> [1..cols -> Entries]]
        /\ i = 1 /\ j = 1 /\ herm = (rows = cols) /\ symm = (rows = cols) /\ zero = TRUE /\ phase = "scan"
\* one entry of the lower triangle (quadratic matrices), one entry of the zero scan (all matrices)
Lower == j <= i /\ rows = cols
Visit == /\ phase = "scan" /\ i <= rows
         /\ zero' = (zero /\ Near(m[i][j], <<0, 0>>, Tol))
         /\ herm' = (IF Lower THEN herm /\ Near(m[i][j], Conj(m[j][i]), Tol) ELSE herm)
         /\ symm' = (IF Lower /\ j < i THEN symm /\ Near(m[i][j], m[j][i], Tol) ELSE symm)
         /\ IF j < cols THEN j' = j + 1 /\ i' = i ELSE j' = 1 /\ i' = i + 1
         /\ phase' = (IF i = rows /\ j = cols THEN "done" ELSE "scan")
         /\ UNCHANGED <<m, rows, cols>>
Next == Visit
Spec == Init /\ [][Next]_vars
Answers == phase = "done" => /\ herm = Hermitian(m, rows, cols, Tol) /\ symm = Symmetric(m, rows, cols, Tol) /\ zero = Zero(m, rows, cols, Tol)
=============================================================================
