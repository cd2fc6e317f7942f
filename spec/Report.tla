------------------------------- MODULE Report -------------------------------
(* What is printed of trees, options, data sets, matrices and of the course  *)
(* of a training, as sequences of lines already split in their fields.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Rat, TLC

T == INSTANCE Tree WITH cfg <- <<>>, pend <- <<>>, nodes <- <<>>

\* The name of a feature, or its number (from zero) if it has no name.
Name(f, names) == IF f <= Len(names) THEN names[f] ELSE ToString(f - 1)

\* The lines of the subtree that starts at node k of the preorder list ns,
\* indented by d: the question of a split, then what happens if it holds and
\* if it does not; the value and the training rows of a leaf.
RECURSIVE Lines(_, _, _, _)
Lines(ns, k, d, names) ==
    IF ns[k].leaf THEN <<[t |-> "leaf", ind |-> d + 1, val |-> ns[k].val, rows |-> ns[k].rows]>>
    ELSE <<[t |-> "split", ind |-> d, name |-> Name(ns[k].f, names), num |-> ns[k].f > Len(names), thr |-> ns[k].thr]>>
         \o <<[t |-> "true", ind |-> d]>> \o Lines(ns, k + 1, d + 1, names)
         \o <<[t |-> "false", ind |-> d]>> \o Lines(ns, k + 1 + T!Size(ns, k + 1), d + 1, names)

\* Reading those lines again: the positions after the subtree at line p.
RECURSIVE After(_, _)
After(ls, p) == IF ls[p].t = "leaf" THEN p + 1 ELSE After(ls, After(ls, p + 2) + 1)
RECURSIVE Parse(_, _)
Parse(ls, p) == IF ls[p].t = "leaf" THEN <<<<ls[p].val, ls[p].rows>>>>
                ELSE <<<<ls[p].name, ls[p].thr>>>> \o Parse(ls, p + 2) \o Parse(ls, After(ls, p + 2) + 1)

\* Options: fields by their abbreviated names, in thousandths (whole for
\* rounds and depth).
Shown(o) == IF o.xgb THEN {"r", "md", "lr", "ss", "bs", "gam", "lam", "mcw", "css"} ELSE {"r", "md", "lr", "mcw"}

\* A data set: the names, then each sample with its label (-1 without labels).
DataLines(d) == <<d.keys>> \o [i \in DOMAIN d.X |-> <<IF Len(d.labels) = Len(d.X) THEN d.labels[i] ELSE -1>> \o d.X[i]]

\* A node to be written to a file: its fields, numbers that aren't whole in
\* thousandths, truth as 0 or 1.
NodeShown == {"ID", "Samples", "ns", "score", "Value", "Threshold", "Leaf", "Branches", "LeftID", "RightID", "XGB"}

\* The course of a training: a line for each loss evaluated, with the round
\* (from zero), the class and the loss.
Course(ls) == [i \in DOMAIN ls |->
    <<Cardinality({j \in 1..(i - 1) : ls[j][1] = ls[i][1]}), ls[i][1], ls[i][2]>>]
=============================================================================
