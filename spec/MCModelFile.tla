---------------------------- MODULE MCModelFile -----------------------------
(* All the ensembles of a small universe, cut everywhere, read line by line. *)
EXTENDS ModelFile, Json
CONSTANTS K, R, Sizes
VARIABLES ens, cut, part, pos, s
vars == <<ens, cut, part, pos, s>>
Shapes == {t \in {<<TRUE>>, <<FALSE, TRUE, TRUE>>, <<FALSE, FALSE, TRUE, TRUE, TRUE>>, <<FALSE, TRUE, FALSE, TRUE, TRUE>>} : Len(t) \in Sizes}
Round == [1..K -> Shapes \cup {<<>>}]
Init == /\ \E r \in 0..R : ens \in [1..r -> Round]
        /\ cut \in 0..Len(Lines(ens)) /\ part \in BOOLEAN
        /\ (part => cut < Len(Lines(ens)))
        /\ pos = 0 /\ s = RInit
Read == /\ s.st \notin {"ok", "err"}
        /\ IF pos < cut THEN pos' = pos + 1 /\ s' = ReadStep(s, Lines(ens)[pos + 1])
           ELSE pos' = pos /\ s' = Finish(s, part)
        /\ UNCHANGED <<ens, cut, part>>
Spec == Init /\ [][Read]_vars
\* C08: never more, fewer or other trees than the complete ones
Truncated == s.st = "ok" => /\ s.got = SubSeq(AllTrees(ens), 1, Len(s.got))
                            /\ cut < Len(Lines(ens)) =>
                                  LET rest == SubSeq(Lines(ens), cut + 1, Len(Lines(ens)))
                                  IN rest[1].t \in {"round", "class"}
                            /\ ~MustErr(Lines(ens), cut, part)
                            /\ Len(s.got) = NTrees(Lines(ens), cut)
\* C07: a whole file gives the whole ensemble
Whole == (s.st \in {"ok", "err"} /\ cut = Len(Lines(ens)) /\ ~part) => s.st = "ok" /\ s.got = AllTrees(ens)
\* a line that can't be understood is never passed over
Damaged == (pos = 0 /\ cut = Len(Lines(ens)) /\ ~part) =>
    \A n \in DOMAIN Lines(ens) : After([Lines(ens) EXCEPT ![n] = LBad], Len(Lines(ens))).st = "err"
\* and neither is a tree without its last lines
Lost == (pos = 0 /\ cut = Len(Lines(ens)) /\ ~part) =>
    LET ls == Lines(ens) IN
    \A a \in DOMAIN ls : \A b \in a..Len(ls) :
        /\ \A i \in a..b : ls[i].t = "node"
        /\ b = Len(ls) \/ ls[b + 1].t # "node"
        => LET s2 == SubSeq(ls, 1, a - 1) \o SubSeq(ls, b + 1, Len(ls))
           IN Finish(After(s2, Len(s2)), FALSE).st = "err"
Gen == (pos = 0 /\ cut = Len(Lines(ens)) /\ ~part /\ s = RInit) => PrintT(<<"SCEN", ToJson([ens |-> ens, K |-> K])>>)
=============================================================================
