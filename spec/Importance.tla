----------------------------- MODULE Importance ------------------------------
(* Feature importance as a ledger of contributions.                          *)
(*                                                                           *)
(* A set of importances holds one total per feature. Add takes the lock,     *)
(* looks the feature up, and adds to its total or appends a new one; Merge   *)
(* adds the totals of another set one by one. Several goroutines do so at    *)
(* the same time. Reporting sorts by total: largest first for extreme        *)
(* boosting, most negative first for the regular one.                        *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

\* jobs: one sequence of <<feature, gain>> per goroutine
VARIABLES jobs, pc, lock, found, feats, gains
ivars == <<jobs, pc, lock, found, feats, gains>>

Procs == DOMAIN jobs
IInit(j) == /\ jobs = j /\ feats = <<>> /\ gains = <<>>
            /\ pc = [p \in DOMAIN j |-> "idle"] /\ lock = 0 /\ found = [p \in DOMAIN j |-> 0]

Acquire(p) == /\ pc[p] = "idle" /\ jobs[p] # <<>> /\ lock = 0
              /\ lock' = p /\ pc' = [pc EXCEPT ![p] = "look"]
              /\ UNCHANGED <<jobs, found, feats, gains>>
Look(p) == /\ pc[p] = "look"
           /\ found' = [found EXCEPT ![p] = SelectInSeq(feats, LAMBDA f : f = Head(jobs[p])[1])]
           /\ pc' = [pc EXCEPT ![p] = "put"]
           /\ UNCHANGED <<jobs, lock, feats, gains>>
Put(p) == /\ pc[p] = "put"
          /\ LET f == Head(jobs[p])[1]
                 g == Head(jobs[p])[2]
             IN IF found[p] > 0
                THEN gains' = [gains EXCEPT ![found[p]] = @ + g] /\ UNCHANGED feats
                ELSE feats' = Append(feats, f) /\ gains' = Append(gains, g)
          /\ jobs' = [jobs EXCEPT ![p] = Tail(@)]
          /\ lock' = 0 /\ pc' = [pc EXCEPT ![p] = "idle"]
          /\ UNCHANGED found
Step(p) == Acquire(p) \/ Look(p) \/ Put(p)
INext == \E p \in Procs : Step(p)
AllDone == \A p \in Procs : jobs[p] = <<>>

SumOver(S, Op(_)) == FoldSet(LAMBDA x, a : a + Op(x), 0, S)
\* the total of a feature in a sequence of contributions
Total(contribs, f) == FoldSeq(LAMBDA x, a : IF x[1] = f THEN a + x[2] ELSE a, 0, contribs)
Used(contribs) == {contribs[i][1] : i \in DOMAIN contribs}

\* rep: the sequence of <<feature, total>> reported. eq(a, b): the total b
\* reported is the total a.
ReportOK(contribs, rep, xgb, Eq(_, _)) ==
    /\ {rep[i][1] : i \in DOMAIN rep} = Used(contribs)
    /\ Len(rep) = Cardinality(Used(contribs))
    /\ \A i \in DOMAIN rep : Eq(Total(contribs, rep[i][1]), rep[i][2])
    /\ \A i \in 1..(Len(rep) - 1) : IF xgb THEN rep[i][2] >= rep[i + 1][2] ELSE rep[i][2] <= rep[i + 1][2]
=============================================================================
