-------------------------------- MODULE Util ---------------------------------
(* The helpers of utils and boo: pure functions of matrices (sequences of    *)
(* rows) and two stateful ones: matrices with views (a view is a window on   *)
(* the cells of a matrix) and a sorter that keeps indexes along with values. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Rat, TLC

\* ---- pure functions
Distinct(s) == FoldLeft(LAMBDA a, x : IF \E i \in DOMAIN a : a[i] = x THEN a ELSE Append(a, x), <<>>, s)
OneHot(s) == LET d == Distinct(s) IN [i \in DOMAIN s |-> [j \in DOMAIN d |-> IF d[j] = s[i] THEN 1 ELSE 0]]
\* indexes start from 0
CanPick(s, ix) == Len(ix) <= Len(s) /\ \A k \in DOMAIN ix : ix[k] < Len(s)
Pick(s, ix) == [k \in DOMAIN ix |-> s[ix[k] + 1]]
PickMat(m, rows, cols) == [k \in DOMAIN rows |-> Pick(m[rows[k] + 1], cols)]
Transposed(m) == [j \in DOMAIN m[1] |-> [i \in DOMAIN m |-> m[i][j]]]
IsPerm(ix, n) == Len(ix) = n /\ {ix[k] : k \in DOMAIN ix} = 0..(n - 1)
Ascending(s) == \A k \in 1..(Len(s) - 1) : s[k] <= s[k + 1]
\* which indexes come first among equals is free
IsArgSort(s, ix, vals) == IsPerm(ix, Len(s)) /\ vals = Pick(s, ix) /\ Ascending(vals)
SumOf(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Best(row) == CHOOSE k \in DOMAIN row : (\A j \in DOMAIN row : row[j] <= row[k]) /\ \A j \in 1..(k - 1) : row[j] < row[k]
Classes(m) == [i \in DOMAIN m |-> Best(m[i]) - 1]
\* the odds of each element of a row: v/(s-v), as numerator and denominator
Odds(row) == [j \in DOMAIN row |-> <<row[j], SumOf(row) - row[j]>>]

\* ---- matrices and views
VARIABLES cell,   \* matrix -> rows
          view,   \* name -> [of, r0, c0, r, c]
          sorter  \* name -> [v, ix]
UInit == cell = <<>> /\ view = <<>> /\ sorter = <<>>
W(n) == view[n]
SetMat(n, m) == /\ cell' = (n :> m) @@ cell
                /\ view' = (n :> [of |-> n, r0 |-> 0, c0 |-> 0, r |-> Len(m), c |-> Len(m[1])]) @@ view
                /\ UNCHANGED sorter
MkView(n, of, r0, c0, r, c) ==
    LET w == W(of) IN
    /\ view' = (n :> [of |-> w.of, r0 |-> w.r0 + r0, c0 |-> w.c0 + c0, r |-> r, c |-> c]) @@ view
    /\ UNCHANGED <<cell, sorter>>
Seen(n) == LET w == W(n) IN [i \in 1..w.r |-> [j \in 1..w.c |-> cell[w.of][w.r0 + i][w.c0 + j]]]
\* change the cells seen through n; the others stay
Change(n, F(_, _, _)) ==
    LET w == W(n) m == cell[w.of] IN
    /\ cell' = [cell EXCEPT ![w.of] = [i \in DOMAIN m |-> [j \in DOMAIN m[i] |->
            IF i \in (w.r0 + 1)..(w.r0 + w.r) /\ j \in (w.c0 + 1)..(w.c0 + w.c)
            THEN F(i - w.r0, j - w.c0, m[i][j]) ELSE m[i][j]]]]
    /\ UNCHANGED <<view, sorter>>
Keep == UNCHANGED <<cell, view, sorter>>
CanCol(n, col) == col < W(n).c
Col(n, col) == [i \in 1..W(n).r |-> Seen(n)[i][col + 1]]
CanAdd(n, s, col) == CanCol(n, col) /\ Len(s) = W(n).r
AddCol(n, s, col) == Change(n, LAMBDA i, j, v : IF j = col + 1 THEN v + s[i] ELSE v)
Ones(n) == Change(n, LAMBDA i, j, v : 1)

\* ---- the sorter
NewSorter(n, s) == sorter' = (n :> [v |-> s, ix |-> [k \in DOMAIN s |-> k - 1]]) @@ sorter /\ UNCHANGED <<cell, view>>
Exch(s, i, j) == [s EXCEPT ![i + 1] = s[j + 1], ![j + 1] = s[i + 1]]
SwapIn(n, i, j) == sorter' = [sorter EXCEPT ![n] = [v |-> Exch(@.v, i, j), ix |-> Exch(@.ix, i, j)]] /\ UNCHANGED <<cell, view>>
=============================================================================
