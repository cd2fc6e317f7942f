---------------------------- MODULE MCImportance -----------------------------
EXTENDS Importance
CONSTANTS NProcs, MaxJobs, NFeat
Contribs == (1..NFeat) \X {1, 2}
JobSets == [1..NProcs -> UNION {[1..m -> Contribs] : m \in 0..MaxJobs}]
VARIABLE all   \* everything that has to be added
Flat(j) == FoldLeft(LAMBDA a, p : a \o j[p], <<>>, [p \in 1..NProcs |-> p])
Init == \E j \in JobSets : IInit(j) /\ all = Flat(j)
Next == INext /\ UNCHANGED all
Spec == Init /\ [][Next]_<<jobs, pc, lock, found, feats, gains, all>> /\ \A p \in 1..NProcs : WF_ivars(Step(p))
Distinct == \A i, j \in DOMAIN feats : i # j => feats[i] # feats[j]
NoneLost == AllDone => ReportOK(all, SortSeq([i \in DOMAIN feats |-> <<feats[i], gains[i]>>], LAMBDA a, b : a[2] > b[2]), TRUE, LAMBDA a, b : a = b)
Never    == \A i \in DOMAIN feats : gains[i] <= Total(all, feats[i])
Finishes == <>AllDone
=============================================================================
