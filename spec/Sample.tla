------------------------------- MODULE Sample -------------------------------
(* Row sub-sampling of a boosting run: in each round a set of rows is drawn, *)
(* and the round is performed, with that set for every class, or skipped.    *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Row, NClass, MaxRounds, MinSamples

VARIABLES minsam, rnd, draw, k, used   \* used: sequence of [r, k, rows]

svars == <<minsam, rnd, draw, k, used>>

SInit == minsam \in MinSamples /\ rnd = 1 /\ draw = {} /\ k = 0 /\ used = <<>>

Performed(ms, S) == S # {} /\ Cardinality(S) >= ms

Draw == /\ k = 0 /\ rnd <= MaxRounds
        /\ \E S \in SUBSET Row :
              /\ draw' = S
              /\ IF Performed(minsam, S) THEN k' = 1 /\ rnd' = rnd
                                         ELSE k' = 0 /\ rnd' = rnd + 1
        /\ UNCHANGED <<minsam, used>>
Train == /\ k > 0
         /\ used' = Append(used, [r |-> rnd, k |-> k, rows |-> draw])
         /\ IF k < NClass THEN k' = k + 1 /\ rnd' = rnd ELSE k' = 0 /\ rnd' = rnd + 1
         /\ UNCHANGED <<minsam, draw>>
SNext == Draw \/ Train

SharedInv == \A i, j \in DOMAIN used : used[i].r = used[j].r => used[i].rows = used[j].rows
EnoughInv == \A i \in DOMAIN used : used[i].rows # {} /\ Cardinality(used[i].rows) >= minsam
AllClassesInv == (k = 0) => \A i \in DOMAIN used : \A c \in 1..NClass :
                     \E j \in DOMAIN used : used[j].r = used[i].r /\ used[j].k = c
=============================================================================
