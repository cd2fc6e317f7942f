----------------------------- MODULE MCCrossVal -----------------------------
EXTENDS CrossVal, TLC
CONSTANTS MaxTot, Odd
Next == \E S \in SUBSET ((1..tot) \ used) :
           Call(S) /\ FoldDone(Cardinality(S), Cardinality(S \ Odd))
Spec == (\E t \in 0..MaxTot, r \in {0, 2, 3} : CInit(t, r)) /\ [][Next]_cvars
OddInv == calls = nf /\ nf > 0 => Total(LAMBDA p : p.right) = Cardinality((1..tot) \ Odd)
=============================================================================
