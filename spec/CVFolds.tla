------------------------------- MODULE CVFolds --------------------------------
(* Cross-validation folds: n folds are drawn, without replacement, from the  *)
(* samples; each call of the sampler gives the next fold as the test set and *)
(* everything else as the train set.                                         *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

Req(nfold) == IF nfold > 0 THEN nfold ELSE 5
\* the largest number of folds, not above the requested one, that leaves at
\* least 2 samples per fold; 0 if not even 2 folds are possible
NF(tot, nfold) ==
    LET ok == {k \in 2..Min({Req(nfold), tot}) : tot \div k >= 2}
    IN IF tot < 2 \/ ok = {} THEN 0 ELSE Max(ok)
Reduced(tot, nfold) == NF(tot, nfold) # Req(nfold)

VARIABLES tot, nf, used, calls, tests
fvars == <<tot, nf, used, calls, tests>>

FInit(t, req) == tot = t /\ nf = NF(t, req) /\ used = {} /\ calls = 0 /\ tests = <<>>

\* The next call gives the test set S.
Call(S) ==
    /\ calls < nf
    /\ S \subseteq 1..tot /\ S \cap used = {}
    /\ Cardinality(S) >= tot \div nf
    \* enough samples remain for the other folds, and none is forgotten
    /\ Cardinality((1..tot) \ (used \cup S)) >= (nf - calls - 1) * (tot \div nf)
    /\ calls = nf - 1 => S \cup used = 1..tot
    /\ used' = used \cup S
    /\ calls' = calls + 1
    /\ tests' = Append(tests, S)
    /\ UNCHANGED <<tot, nf>>

Train(S) == (1..tot) \ S

----------------------------------------------------------------------------
Disjoint == \A i, j \in DOMAIN tests : i # j => tests[i] \cap tests[j] = {}
Cover    == calls = nf /\ nf > 0 => UNION {tests[i] : i \in DOMAIN tests} = 1..tot
SizeOK   == \A i \in DOMAIN tests : Cardinality(tests[i]) >= tot \div nf /\ Cardinality(tests[i]) >= 2
\* every sample is trained on in all the folds but one
TrainOK  == calls = nf /\ nf > 0 => \A x \in 1..tot :
              Cardinality({i \in DOMAIN tests : x \in Train(tests[i])}) = nf - 1
\* no fold is empty, no train set is empty
NonEmpty == \A i \in DOMAIN tests : Train(tests[i]) # {}
=============================================================================
