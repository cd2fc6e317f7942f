-------------------------------- MODULE Grid --------------------------------
(* The grid search: a coordinator launches the evaluation of every           *)
(* combination, at most C at a time in batches, each as a goroutine that     *)
(* sends its error, accuracy and options through the channels of its slot.   *)
(* The channels hold Cap elements. The coordinator receives the results of a *)
(* batch slot by slot, and returns after a batch with an error: nothing is   *)
(* left running.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt

CONSTANTS N, C, Cap, Accs

Combo == 1..N
Slot  == 1..C

VARIABLES next, cpus, pc, ci, stage,    \* coordinator
          w, slot,                      \* goroutines
          chE, chA, chO,                \* channels of each slot
          acc, bad,                     \* outcome of each evaluation
          best, bestop, accs, failed
vars == <<next, cpus, pc, ci, stage, w, slot, chE, chA, chO, acc, bad, best, bestop, accs, failed>>

Init == /\ next = 1 /\ cpus = 0 /\ pc = "launch" /\ ci = 1 /\ stage = "err"
        /\ w = [i \in Combo |-> "no"] /\ slot = [i \in Combo |-> 0]
        /\ chE = [s \in Slot |-> <<>>] /\ chA = chE /\ chO = chE
        /\ acc = [i \in Combo |-> 0] /\ bad = [i \in Combo |-> FALSE]
        /\ best = 0 /\ bestop = 0 /\ accs = <<>> /\ failed = FALSE

\* --- coordinator ---
Launch == /\ pc = "launch" /\ next <= N /\ cpus < C
          /\ w' = [w EXCEPT ![next] = "run"]
          /\ slot' = [slot EXCEPT ![next] = cpus + 1]
          /\ next' = next + 1 /\ cpus' = cpus + 1
          /\ IF cpus + 1 = C \/ next = N THEN pc' = "collect" ELSE pc' = pc
          /\ ci' = 1 /\ stage' = "err"
          /\ UNCHANGED <<chE, chA, chO, acc, bad, best, bestop, accs, failed>>

NoCombos == /\ pc = "launch" /\ N = 0 /\ pc' = "ret"
            /\ UNCHANGED <<next, cpus, ci, stage, w, slot, chE, chA, chO, acc, bad, best, bestop, accs, failed>>

RecvErr == /\ pc = "collect" /\ stage = "err" /\ chE[ci] # <<>>
           /\ chE' = [chE EXCEPT ![ci] = Tail(@)]
           /\ failed' = (failed \/ Head(chE[ci]))
           /\ stage' = "acc"
           /\ UNCHANGED <<next, cpus, pc, ci, w, slot, chA, chO, acc, bad, best, bestop, accs>>
RecvAcc == /\ pc = "collect" /\ stage = "acc" /\ chA[ci] # <<>>
           /\ chA' = [chA EXCEPT ![ci] = Tail(@)]
           /\ accs' = IF failed THEN accs ELSE Append(accs, Head(chA[ci]))
           /\ stage' = "opt"
           /\ UNCHANGED <<next, cpus, pc, ci, w, slot, chE, chO, acc, bad, best, bestop, failed>>
RecvOpt == /\ pc = "collect" /\ stage = "opt" /\ chO[ci] # <<>>
           /\ chO' = [chO EXCEPT ![ci] = Tail(@)]
           /\ IF failed THEN UNCHANGED <<best, bestop>> ELSE
              LET a == accs[Len(accs)]
              IN IF a > best \/ bestop = 0 THEN best' = a /\ bestop' = Head(chO[ci])
                 ELSE UNCHANGED <<best, bestop>>
           /\ stage' = "err"
           /\ IF ci < cpus THEN ci' = ci + 1 /\ UNCHANGED <<pc, cpus>>
              ELSE ci' = 1 /\ cpus' = 0 /\ pc' = IF next > N \/ failed THEN "ret" ELSE "launch"
           /\ UNCHANGED <<next, w, slot, chE, chA, acc, bad, accs, failed>>

\* --- evaluations ---
EndEval(i, a, e) == /\ w[i] = "run"
                    /\ acc' = [acc EXCEPT ![i] = IF e THEN -1 ELSE a]
                    /\ bad' = [bad EXCEPT ![i] = e]
                    /\ w' = [w EXCEPT ![i] = "sendE"]
                    /\ UNCHANGED <<next, cpus, pc, ci, stage, slot, chE, chA, chO, best, bestop, accs, failed>>
SendE(i) == /\ w[i] = "sendE" /\ Len(chE[slot[i]]) < Cap
            /\ chE' = [chE EXCEPT ![slot[i]] = Append(@, bad[i])]
            /\ w' = [w EXCEPT ![i] = "sendA"]
            /\ UNCHANGED <<next, cpus, pc, ci, stage, slot, chA, chO, acc, bad, best, bestop, accs, failed>>
SendA(i) == /\ w[i] = "sendA" /\ Len(chA[slot[i]]) < Cap
            /\ chA' = [chA EXCEPT ![slot[i]] = Append(@, acc[i])]
            /\ w' = [w EXCEPT ![i] = "sendO"]
            /\ UNCHANGED <<next, cpus, pc, ci, stage, slot, chE, chO, acc, bad, best, bestop, accs, failed>>
SendO(i) == /\ w[i] = "sendO" /\ Len(chO[slot[i]]) < Cap
            /\ chO' = [chO EXCEPT ![slot[i]] = Append(@, i)]
            /\ w' = [w EXCEPT ![i] = "done"]
            /\ UNCHANGED <<next, cpus, pc, ci, stage, slot, chE, chA, acc, bad, best, bestop, accs, failed>>

Worker(i) == (\E a \in Accs, e \in BOOLEAN : EndEval(i, a, e)) \/ SendE(i) \/ SendA(i) \/ SendO(i)
Coord == Launch \/ NoCombos \/ RecvErr \/ RecvAcc \/ RecvOpt
Next == Coord \/ \E i \in Combo : Worker(i)
Spec == Init /\ [][Next]_vars /\ WF_vars(Coord) /\ \A i \in Combo : WF_vars(Worker(i))

----------------------------------------------------------------------------
Running == {i \in Combo : w[i] = "run"}
\* C12
Bounded == Cardinality(Running) <= C
Returns == <>(pc = "ret")
NoLeak  == <>[](\A i \in Combo : w[i] \in {"no", "done"})
\* when it returns, nothing of it is running
Clean == pc = "ret" => \A i \in Combo : w[i] \in {"no", "done"}
ErrorOut == pc = "ret" => (failed <=> \E i \in Combo : w[i] # "no" /\ bad[i])
\* C11
Complete == (pc = "ret" /\ ~failed) =>
    /\ \A i \in Combo : w[i] # "no"
    /\ Len(accs) = N
    /\ \A a \in Accs : Cardinality({k \in DOMAIN accs : accs[k] = a}) = Cardinality({i \in Combo : acc[i] = a})
    /\ N > 0 => bestop \in Combo /\ acc[bestop] = best /\ \A i \in Combo : acc[i] <= best
=============================================================================
