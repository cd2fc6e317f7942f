------------------------------ MODULE CrossVal ------------------------------
(* Cross-validation of one set of options: one model is trained per fold, on *)
(* everything but the fold, and evaluated on the fold. A sample that can be  *)
(* learnt from the others is predicted right; an odd one, whose label is in  *)
(* no other sample, is always predicted wrong (if the training part is only  *)
(* what it should be). The result is the plain mean of the fold accuracies.  *)
EXTENDS CVFolds, Rat

VARIABLES parts   \* per fold, [size, right]
cvars == <<tot, nf, used, calls, tests, parts>>

\* 10^4 * the mean of the percentages
Percent(p) == Sc(p.right, p.size, 1000000)
Mean == LET s == FoldSeq(LAMBDA p, a : a + Percent(p), 0, parts) IN s \div nf

CInit(t, req) == FInit(t, req) /\ parts = <<>>

\* a fold of s samples, r of them predicted right
FoldDone(s, r) ==
    /\ r \in 0..s
    /\ parts' = Append(parts, [size |-> s, right |-> r])

Total(f(_)) == FoldSeq(LAMBDA p, a : a + f(p), 0, parts)
MeanInv == calls = nf /\ nf > 0 =>
    /\ Mean >= 0 /\ Mean <= 1000000
    \* folds of the same size: the mean is the overall fraction
    /\ (tot % nf = 0) => Near(Mean, Sc(Total(LAMBDA p : p.right), tot, 1000000), 2)
    /\ Total(LAMBDA p : p.size) = tot
=============================================================================
