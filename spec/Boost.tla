------------------------------- MODULE Boost -------------------------------
(* The boosting loop: rounds, classes, scores and early stopping.            *)
(*                                                                           *)
(* One action per step of the loop for a class: FitClass (the tree is grown  *)
(* at the current scores and added to its class), then Judge (the training   *)
(* loss of the class decides whether it goes on).                            *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Class,      \* 1..K
          MaxRounds,
          LossVal,    \* losses; those <= 0 are below the stopping threshold
          Steps       \* what a tree may add to the score of its class

VARIABLES E,          \* early stopping: 0 is off
          rnd, k,     \* round (1..MaxRounds+1) and class under way
          fitted,     \* the class under way already got its tree
          score,      \* score of each class
          trees,      \* what each class received: sequence of [r, add]
          hist,       \* losses of each class
          stopped, prev, noprog

bvars == <<E, rnd, k, fitted, score, trees, hist, stopped, prev, noprog>>

K == Cardinality(Class)

\* What one loss does to the early-stop state of a class. first: no round was
\* performed before this one.
StopNext(e, first, stp, prv, nop, loss) ==
    IF e = 0 THEN [s |-> stp, p |-> prv, n |-> nop]
    ELSE IF loss <= 0 THEN [s |-> TRUE, p |-> prv, n |-> nop]
    ELSE IF first THEN [s |-> FALSE, p |-> loss, n |-> 0]
    ELSE LET n2 == IF prv <= loss THEN nop + 1 ELSE 0
         IN [s |-> n2 >= e, p |-> loss, n |-> n2]

BInit == /\ E \in 0..2
         /\ rnd = 1 /\ k = 1 /\ fitted = FALSE
         /\ score = [c \in Class |-> 0]
         /\ trees = [c \in Class |-> <<>>]
         /\ hist = [c \in Class |-> <<>>]
         /\ stopped = [c \in Class |-> FALSE]
         /\ prev = [c \in Class |-> 0]
         /\ noprog = [c \in Class |-> 0]

Advance == IF k < K THEN k' = k + 1 /\ rnd' = rnd ELSE k' = 1 /\ rnd' = rnd + 1

SkipStopped == /\ rnd <= MaxRounds /\ ~fitted /\ stopped[k]
               /\ Advance
               /\ UNCHANGED <<E, fitted, score, trees, hist, stopped, prev, noprog>>

FitClass == /\ rnd <= MaxRounds /\ ~fitted /\ ~stopped[k]
            /\ \E a \in Steps :
                 /\ score' = [score EXCEPT ![k] = @ + a]
                 /\ trees' = [trees EXCEPT ![k] = Append(@, [r |-> rnd, add |-> a])]
            /\ fitted' = TRUE
            /\ UNCHANGED <<E, rnd, k, hist, stopped, prev, noprog>>

Judge == /\ fitted
         /\ \E v \in LossVal :
              LET z == StopNext(E, rnd = 1, stopped[k], prev[k], noprog[k], v)
              IN /\ hist' = [hist EXCEPT ![k] = Append(@, v)]
                 /\ stopped' = [stopped EXCEPT ![k] = z.s]
                 /\ prev' = [prev EXCEPT ![k] = z.p]
                 /\ noprog' = [noprog EXCEPT ![k] = z.n]
         /\ fitted' = FALSE
         /\ Advance
         /\ UNCHANGED <<E, score, trees>>

BNext == SkipStopped \/ FitClass \/ Judge

----------------------------------------------------------------------------
\* C04: the score is the sum of the trees of the class
RECURSIVE SumAdd(_)
SumAdd(s) == IF s = <<>> THEN 0 ELSE Head(s).add + SumAdd(Tail(s))
ScoreInv == \A c \in Class : score[c] = SumAdd(trees[c])

\* C05, declaratively: a class with the loss history h is stopped
NoImprove(h, i) == i > 1 /\ h[i - 1] <= h[i]
ShouldStop(e, h) ==
    e > 0 /\ ( \/ \E i \in DOMAIN h : h[i] <= 0
               \/ \E i \in DOMAIN h : i >= e /\ \A j \in (i - e + 1)..i : NoImprove(h, j))
StopInv == \A c \in Class : stopped[c] <=> ShouldStop(E, hist[c])
\* ...and got its last tree in the round that stopped it
LastInv == \A c \in Class :
    LET n == Len(hist[c]) IN
    stopped[c] => /\ ~ShouldStop(E, SubSeq(hist[c], 1, n - 1))
                  /\ Len(trees[c]) = n
\* one tree per round, in the rounds performed, none missing
AlignInv == \A c \in Class :
    /\ \A i \in DOMAIN trees[c] : trees[c][i].r = i
    /\ (~stopped[c] /\ rnd > MaxRounds) => Len(trees[c]) = MaxRounds
=============================================================================
