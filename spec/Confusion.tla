------------------------------ MODULE Confusion ------------------------------
(* Confusions of a model on labelled data: samples are counted one by one by *)
(* (index of the label, index of the predicted label) among the K labels of  *)
(* the model; label 0 stands for one that the model does not know.           *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

VARIABLES K, matrix, n, right
cvars == <<K, matrix, n, right>>

Zero(k) == [i \in 1..k |-> [j \in 1..k |-> 0]]
CInit(k) == K = k /\ matrix = Zero(k) /\ n = 0 /\ right = 0

Sample(a, p) ==
    /\ a \in 0..K /\ p \in 1..K
    /\ matrix' = IF a = 0 THEN matrix ELSE [matrix EXCEPT ![a][p] = @ + 1]
    /\ n' = n + 1
    /\ right' = right + (IF a = p THEN 1 ELSE 0)
    /\ UNCHANGED K

SumSeq(s) == FoldSeq(LAMBDA x, y : x + y, 0, s)
RowSum(i) == SumSeq(matrix[i])

\* idx, counts: the N labels (all, if fewer) with the largest counts in row i
TopOK(i, N, idx, counts) ==
    /\ Len(idx) = (IF N < K THEN N ELSE K) /\ Len(counts) = Len(idx)
    /\ \A a \in DOMAIN idx : idx[a] \in 1..K
    /\ \A a, b \in DOMAIN idx : a # b => idx[a] # idx[b]
    /\ \A a \in DOMAIN idx : counts[a] = matrix[i][idx[a]]
    /\ \A a \in 1..(Len(counts) - 1) : counts[a] >= counts[a + 1]
    /\ \A j \in (1..K) \ ToSet(idx) : \A a \in DOMAIN counts : matrix[i][j] <= counts[a]

\* The printed summary: one line per label with samples, in order, with the
\* non-zero ones among its N largest counts. lines: seq of [l, idx, counts].
LineOK(ln, N) ==
    LET nz  == Cardinality({j \in 1..K : matrix[ln.l][j] > 0})
        len == IF nz < N THEN nz ELSE N
    IN /\ Len(ln.idx) = len /\ Len(ln.counts) = len
       /\ \A a \in DOMAIN ln.idx : ln.idx[a] \in 1..K /\ ln.counts[a] = matrix[ln.l][ln.idx[a]] /\ ln.counts[a] > 0
       /\ \A a, b \in DOMAIN ln.idx : a # b => ln.idx[a] # ln.idx[b]
       /\ \A a \in 1..(len - 1) : ln.counts[a] >= ln.counts[a + 1]
       /\ \A j \in (1..K) \ ToSet(ln.idx) : \A a \in DOMAIN ln.counts : matrix[ln.l][j] <= ln.counts[a]
PrintOK(N, lines) ==
    \/ N = 0 /\ lines = <<>>
    \/ /\ \A a \in DOMAIN lines : lines[a].l \in 1..K
       /\ [a \in DOMAIN lines |-> lines[a].l] = SetToSortSeq({i \in 1..K : RowSum(i) > 0}, LAMBDA x, y : x < y)
       /\ \A a \in DOMAIN lines : LineOK(lines[a], N)
=============================================================================
