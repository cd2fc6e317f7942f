------------------------------- MODULE Climb --------------------------------
(* The gradient searches: from the middle of the space, a point is evaluated,*)
(* moved by a gradient step (or shaken) and evaluated again; the best point  *)
(* evaluated is remembered. Points are cells that the steps change in place, *)
(* so remembering one means copying it. The search starts anew for each of   *)
(* the combinations of the hyperparameters that the steps don't move.        *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MaxEval, Accs, Points, Inside,   \* Inside: the points in the space
          Starts                          \* where it starts, one per combination

VARIABLES cur,        \* the point under way (a cell, changed in place)
          tried,      \* sequence of [pt, acc] evaluated
          best, bestpt, accs, pc,
          todo        \* starts that remain
vars == <<cur, tried, best, bestpt, accs, pc, todo>>

Init == /\ cur \in Starts /\ todo = Starts \ {cur} /\ tried = <<>> /\ best = 0 /\ bestpt = 0 /\ accs = <<>> /\ pc = "eval"
\* Evaluate the current point. If it is worse than the last good one it is
\* shaken, otherwise it may be the new best.
Evaluate == /\ pc = "eval" /\ Len(tried) < MaxEval
            /\ cur \in Inside
            /\ \E a \in Accs :
                  /\ tried' = Append(tried, [pt |-> cur, acc |-> a])
                  /\ IF (bestpt = 0) \/ (a > best /\ a >= accs[Len(accs)])
                     THEN best' = a /\ bestpt' = cur /\ accs' = Append(accs, a)
                     ELSE UNCHANGED <<best, bestpt, accs>>
            /\ pc' = "move" /\ UNCHANGED <<cur, todo>>
\* A step from a point in the space stays in it; a shaken point may leave it,
\* and is only evaluated once it is back.
Move == /\ pc = "move"
        /\ cur' \in Points
        /\ pc' = IF cur' \in Inside THEN "eval" ELSE "move"
        /\ UNCHANGED <<tried, best, bestpt, accs, todo>>
Restart == /\ pc = "move" /\ cur' \in todo /\ todo' = todo \ {cur'} /\ pc' = "eval"
           /\ UNCHANGED <<tried, best, bestpt, accs>>
Stop == /\ pc = "move" /\ todo = {} /\ pc' = "ret" /\ UNCHANGED <<cur, tried, best, bestpt, accs, todo>>
Next == Evaluate \/ Move \/ Restart \/ Stop
Spec == Init /\ [][Next]_vars

Increasing(s) == \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
\* C13, over what was evaluated and what is returned
Good(tr, b, pt, as) ==
    /\ \E i \in DOMAIN tr : tr[i].pt = pt /\ tr[i].acc = b
    /\ Increasing(as) /\ as # <<>> /\ as[Len(as)] = b
    /\ \A i \in DOMAIN as : \E j \in DOMAIN tr : tr[j].acc = as[i]
\* every start is evaluated
Explored(tr, S) == \A s \in S : \E i \in DOMAIN tr : tr[i].pt = s
\* nothing tried is better than what is returned
Highest(tr, b) == \A i \in DOMAIN tr : tr[i].acc <= b
Returned == pc = "ret" => Good(tried, best, bestpt, accs) /\ Highest(tried, best) /\ bestpt \in Inside /\ Explored(tried, Starts)
=============================================================================
