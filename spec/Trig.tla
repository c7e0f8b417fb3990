--------------------------------- MODULE Trig ---------------------------------
(* Fixed-point tables of cos and sin at the multiples of a full turn / M,    *)
(* characterised by their defining identities (scale S).                     *)
EXTENDS Integers, Sequences
S == 10000
AbsT(x) == IF x < 0 THEN -x ELSE x
\* c[j + 1], s[j + 1] for j = 0..M-1
ValidTable(M, c, s) ==
    /\ Len(c) = M /\ Len(s) = M /\ c[1] = S /\ s[1] = 0
    /\ \A j \in 1..M : LET x == (j % M) + 1
                       IN  IF M = 1 THEN TRUE
                           ELSE /\ AbsT((c[x] * S - (c[j] * c[2] - s[j] * s[2])) \div S) <= 2
                                /\ AbsT((s[x] * S - (s[j] * c[2] + c[j] * s[2])) \div S) <= 2
    /\ \A j \in 1..M : AbsT(c[j] * c[j] + s[j] * s[j] - S * S) <= 4 * S
    \* the first step is the smallest one: the sine is positive in the first half turn
    /\ \A j \in 1..M : 0 < j - 1 /\ 2 * (j - 1) < M => s[j] > 0
    /\ \A j \in 1..M : 2 * (j - 1) = M => AbsT(s[j]) <= 2 /\ AbsT(c[j] + S) <= 2
Cos(c, k) == c[(k % Len(c)) + 1]
Sin(s, k) == s[(k % Len(s)) + 1]
=============================================================================
