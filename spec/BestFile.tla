------------------------------ MODULE BestFile -------------------------------
(* A search that writes the model of each new best result to a file named    *)
(* after the whole part of its accuracy. Accuracies are in tenths; the model *)
(* trained with some options is determined by them (no sub-sampling).        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Opts, Accs, MaxEval
VARIABLES tried, best, bestopt, files, pc
vars == <<tried, best, bestopt, files, pc>>
Whole(a) == a \div 10
Init == tried = <<>> /\ best = 0 /\ bestopt = 0 /\ files = <<>> /\ pc = "search"
Evaluate(o, a) ==
    /\ pc = "search" /\ tried' = Append(tried, [o |-> o, acc |-> a])
    /\ IF a > best \/ bestopt = 0
       THEN best' = a /\ bestopt' = o /\ files' = (Whole(a) :> o) @@ files
       ELSE UNCHANGED <<best, bestopt, files>>
    /\ UNCHANGED pc
Return == pc = "search" /\ tried # <<>> /\ pc' = "ret" /\ UNCHANGED <<tried, best, bestopt, files>>
Next == Return \/ (Len(tried) < MaxEval /\ \E o \in Opts, a \in Accs : Evaluate(o, a))
Spec == Init /\ [][Next]_vars

\* fs: whole accuracy -> options of the model in the file; w: whole part of
\* the best accuracy; tr: [o, w] of what was evaluated
Right(fs, w, o, tr) ==
    /\ w \in DOMAIN fs /\ fs[w] = o
    /\ \A k \in DOMAIN fs : \E i \in DOMAIN tr : tr[i].w = k /\ tr[i].o = fs[k]
Returned == pc = "ret" => Right(files, Whole(best), bestopt, [i \in DOMAIN tried |-> [o |-> tried[i].o, w |-> Whole(tried[i].acc)]])
\* no file is better than the best
Top == \A k \in DOMAIN files : k <= Whole(best)
=============================================================================
