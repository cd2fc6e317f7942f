----------------------------- MODULE ModelFile ------------------------------
(* The model file: one line of metadata, then for each round a ROUND line    *)
(* and, for each class that got a tree in that round, a CLASS line and the   *)
(* nodes of the tree, one per line in preorder.                              *)
(*                                                                           *)
(* The file may be cut after any number of whole lines (cut), possibly with  *)
(* an incomplete line after them (part). The reader is an automaton over the *)
(* lines; what it returns must be an error or exactly the trees that are     *)
(* complete before the cut, and only if the cut is between trees.            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

\* A line: [t |-> "meta" | "round" | "class" | "node", k |-> class, leaf |-> ..]
LMeta == [t |-> "meta", k |-> 0, leaf |-> FALSE]
LRound == [t |-> "round", k |-> 0, leaf |-> FALSE]
LClass(k) == [t |-> "class", k |-> k, leaf |-> FALSE]
LNode(lf) == [t |-> "node", k |-> 0, leaf |-> lf]
\* a line that says nothing that can be understood
LBad == [t |-> "bad", k |-> 0, leaf |-> FALSE]

\* ens: sequence of rounds; a round is a sequence over the classes of trees,
\* a tree the preorder sequence of its nodes (TRUE for a leaf), empty if none
TreeLines(k, tr) == IF tr = <<>> THEN <<>>
                    ELSE <<LClass(k)>> \o [i \in DOMAIN tr |-> LNode(tr[i])]
RECURSIVE RoundLines(_, _)
RoundLines(rd, k) == IF k > Len(rd) THEN <<>> ELSE TreeLines(k, rd[k]) \o RoundLines(rd, k + 1)
RECURSIVE EnsLines(_, _)
EnsLines(ens, r) == IF r > Len(ens) THEN <<>>
                    ELSE <<LRound>> \o RoundLines(ens[r], 1) \o EnsLines(ens, r + 1)
Lines(ens) == <<LMeta>> \o EnsLines(ens, 1)

RECURSIVE AllTreesFrom(_, _, _)
AllTreesFrom(ens, r, k) ==
    IF r > Len(ens) THEN <<>>
    ELSE IF k > Len(ens[r]) THEN AllTreesFrom(ens, r + 1, 1)
    ELSE (IF ens[r][k] = <<>> THEN <<>> ELSE <<[r |-> r, k |-> k, tree |-> ens[r][k]]>>)
         \o AllTreesFrom(ens, r, k + 1)
AllTrees(ens) == AllTreesFrom(ens, 1, 1)

----------------------------------------------------------------------------
\* The reader. st: what it expects; need: subtrees missing of the tree under way.
RInit == [st |-> "meta", r |-> 0, k |-> 0, need |-> 0, cur |-> <<>>, got |-> <<>>]
Err(s) == [s EXCEPT !.st = "err"]
ReadStep(s, ln) ==
    CASE s.st = "meta"  -> IF ln.t = "meta" THEN [s EXCEPT !.st = "gap"] ELSE Err(s)
      [] s.st = "gap"   -> IF ln.t = "round" THEN [s EXCEPT !.r = @ + 1]
                           ELSE IF ln.t = "class" /\ s.r > 0 THEN [s EXCEPT !.st = "class", !.k = ln.k]
                           ELSE Err(s)
      [] s.st \in {"class", "tree"} ->
            IF ln.t # "node" THEN Err(s)
            ELSE LET need == (IF s.st = "class" THEN 1 ELSE s.need) + (IF ln.leaf THEN -1 ELSE 1)
                     cur  == Append(s.cur, ln.leaf)
                 IN IF need = 0
                    THEN [s EXCEPT !.st = "gap", !.need = 0, !.cur = <<>>,
                                   !.got = Append(@, [r |-> s.r, k |-> s.k, tree |-> cur])]
                    ELSE [s EXCEPT !.st = "tree", !.need = need, !.cur = cur]
      [] OTHER -> s
\* state of the reader after the first n lines
After(lines, n) == FoldLeft(ReadStep, RInit, SubSeq(lines, 1, n))

\* The end of the file, with or without an incomplete line before it.
Finish(s, part) == IF s.st = "gap" /\ ~part THEN [s EXCEPT !.st = "ok"] ELSE Err(s)

----------------------------------------------------------------------------
\* What a reader of the first n lines (and part of the next one) may return:
\* MayErr, and the number of trees it has to return if it returns a model.
\* A cut at the very end of a complete file must not be an error.
MustErr(lines, n, part) ==
    \/ n = 0
    \/ After(lines, n).st \in {"tree", "err"}
    \/ After(lines, n).st = "class" /\ part  \* inside of the first node
MustRead(lines, n, part) == n = Len(lines) /\ ~part
NTrees(lines, n) == Len(After(lines, n).got)
=============================================================================
