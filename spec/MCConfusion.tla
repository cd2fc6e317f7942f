---------------------------- MODULE MCConfusion ------------------------------
EXTENDS Confusion
CONSTANTS MaxK, MaxN
Init == \E k \in 1..MaxK : CInit(k)
Next == n < MaxN /\ \E a \in 0..K, p \in 1..K : Sample(a, p)
Spec == Init /\ [][Next]_cvars
Lists(N) == UNION {[1..m -> 1..K] : m \in 0..(IF N < K THEN N ELSE K)}
Known == SumSeq([i \in 1..K |-> RowSum(i)])
\* the diagonal is the right predictions, and no sample of a known label is lost
Diagonal == SumSeq([i \in 1..K |-> matrix[i][i]]) = right
Complete == Known <= n
\* a top list always exists, and holds as many samples as any N labels do
TopSound == \A i \in 1..K, N \in 0..(K + 1) :
    LET good == {s \in Lists(N) : TopOK(i, N, s, [a \in DOMAIN s |-> matrix[i][s[a]]])}
        Tot(s) == SumSeq([a \in DOMAIN s |-> matrix[i][s[a]]])
    IN /\ good # {}
       /\ \A s \in good : \A t \in Lists(N) : (\A a, b \in DOMAIN t : a # b => t[a] # t[b]) => Tot(t) <= Tot(s)
=============================================================================
