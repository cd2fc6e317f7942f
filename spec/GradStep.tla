------------------------------ MODULE GradStep ------------------------------
(* One gradient step: a goroutine per parameter evaluates the accuracy a bit *)
(* above (and, for central differences, a bit below) the given point, each   *)
(* as a further goroutine, and sends its new value to the coordinator, that  *)
(* receives them in a fixed order. Evaluation channels hold Cap elements,    *)
(* the ones for the new values none.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS P, Cap, Central, Accs

Par == 1..P
Sides == {"plus", "minus"}
VARIABLES pc,      \* of each parameter's goroutine
          ev,      \* state of its evaluations: no, run, sent (0..3 sends done)
          ch,      \* results waiting in the channels of each evaluation
          recvd,   \* next parameter the coordinator waits for
          evalAt,  \* points evaluated: <<parameter, side>>
          acc,     \* accuracies found there, and at the point itself
          move     \* where each parameter goes: -1, 0 or 1
vars == <<pc, ev, ch, recvd, evalAt, acc, move>>

Init == /\ pc = [p \in Par |-> "start"]
        /\ ev = [p \in Par |-> [s \in Sides |-> "no"]]
        /\ ch = [p \in Par |-> [s \in Sides |-> 0]]
        /\ recvd = 1
        /\ evalAt = {}
        /\ acc \in {[x \in {<<0, "here">>} |-> a] : a \in IF Central THEN {0} ELSE Accs}
        /\ move = [p \in Par |-> 0]

StartEval(p, s) == ev' = [ev EXCEPT ![p][s] = "run"]
\* the options below may be invalid: the step gives up before starting
GiveUp(p) == /\ pc[p] = "start" /\ Central
             /\ pc' = [pc EXCEPT ![p] = "send"]
             /\ UNCHANGED <<ev, ch, recvd, evalAt, acc, move>>
Begin(p) == /\ pc[p] = "start"
            /\ StartEval(p, "plus")
            /\ evalAt' = evalAt \cup {<<p, "plus">>}
            /\ pc' = [pc EXCEPT ![p] = IF Central THEN "minus" ELSE "wait"]
            /\ UNCHANGED <<ch, recvd, acc, move>>
Minus(p) == /\ pc[p] = "minus"
            /\ StartEval(p, "minus")
            /\ evalAt' = evalAt \cup {<<p, "minus">>}
            /\ pc' = [pc EXCEPT ![p] = "wait"]
            /\ UNCHANGED <<ch, recvd, acc, move>>
\* an evaluation ends with its three sends (taken as one: each has its channel)
Eval(p, s) == /\ ev[p][s] = "run"
              /\ ev' = [ev EXCEPT ![p][s] = "send"]
              /\ \E a \in Accs : acc' = (<<p, s>> :> a) @@ acc
              /\ UNCHANGED <<pc, ch, recvd, evalAt, move>>
Send(p, s) == /\ ev[p][s] = "send" /\ ch[p][s] < Cap
              /\ ch' = [ch EXCEPT ![p][s] = @ + 1]
              /\ ev' = [ev EXCEPT ![p][s] = "done"] /\ UNCHANGED <<pc, recvd, evalAt, acc, move>>
\* uphill, or nowhere (out of the space, or too little to matter)
Go(p, from) == \E m \in {0, IF acc[<<p, "plus">>] > acc[from] THEN 1 ELSE IF acc[<<p, "plus">>] < acc[from] THEN -1 ELSE 0} :
                  move' = [move EXCEPT ![p] = m]
Wait(p) == /\ pc[p] = "wait" /\ ch[p]["plus"] > 0
           /\ ch' = [ch EXCEPT ![p]["plus"] = @ - 1]
           /\ \/ ~Central /\ pc' = [pc EXCEPT ![p] = "send"] /\ UNCHANGED move  \* an error
              \/ Central /\ pc' = [pc EXCEPT ![p] = "wait2"] /\ UNCHANGED move
              \/ ~Central /\ pc' = [pc EXCEPT ![p] = "send"] /\ Go(p, <<0, "here">>)
           /\ UNCHANGED <<ev, recvd, evalAt, acc>>
Wait2(p) == /\ pc[p] = "wait2" /\ ch[p]["minus"] > 0
            /\ ch' = [ch EXCEPT ![p]["minus"] = @ - 1]
            /\ pc' = [pc EXCEPT ![p] = "send"]
            /\ UNCHANGED move \/ Go(p, <<p, "minus">>)   \* an error, or a move
            /\ UNCHANGED <<ev, recvd, evalAt, acc>>
\* rendezvous with the coordinator
Deliver(p) == /\ pc[p] = "send" /\ recvd = p
              /\ pc' = [pc EXCEPT ![p] = "done"]
              /\ recvd' = recvd + 1
              /\ UNCHANGED <<ev, ch, evalAt, acc, move>>
PStep(p) == GiveUp(p) \/ Begin(p) \/ Minus(p) \/ Wait(p) \/ Wait2(p) \/ Deliver(p)
EStep(p, s) == Eval(p, s) \/ Send(p, s)
Next == \E p \in Par : PStep(p) \/ \E s \in Sides : EStep(p, s)
Spec == Init /\ [][Next]_vars /\ \A p \in Par : WF_vars(PStep(p)) /\ \A s \in Sides : WF_vars(EStep(p, s))

Returns == <>(recvd = P + 1)
NoLeak == <>[](\A p \in Par : pc[p] = "done" /\ \A s \in Sides : ev[p][s] \in {"no", "done"})
\* when the step returns nothing of it is running
Clean == recvd = P + 1 => \A p \in Par, s \in Sides : ev[p][s] \in {"no", "done"}
\* only points around the given one are evaluated, each once
Around == evalAt \subseteq Par \X Sides /\ (~Central => \A x \in evalAt : x[2] = "plus")
\* a parameter moves only if the accuracy grows that way
Uphill == \A p \in Par : move[p] # 0 =>
    LET lo == IF Central THEN <<p, "minus">> ELSE <<0, "here">>
    IN {<<p, "plus">>, lo} \subseteq DOMAIN acc /\ move[p] * (acc[<<p, "plus">>] - acc[lo]) > 0
=============================================================================
