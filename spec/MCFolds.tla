------------------------------ MODULE MCFolds -------------------------------
(* All the ways of drawing the folds of up to MaxTot samples.                *)
EXTENDS CVFolds, TLC
CONSTANTS MaxTot
Next == \E S \in SUBSET ((1..tot) \ used) : Call(S)
Spec == (\E t \in 0..MaxTot, r \in 0..(MaxTot + 1) : FInit(t, r)) /\ [][Next]_fvars
\* a sampler that can go on never gets stuck before its nf calls
NotStuck == calls < nf => \E S \in SUBSET ((1..tot) \ used) :
               /\ Cardinality(S) >= tot \div nf
               /\ Cardinality((1..tot) \ (used \cup S)) >= (nf - calls - 1) * (tot \div nf)
NFRight == /\ nf > 0 => tot \div nf >= 2
           /\ nf # 1
=============================================================================
