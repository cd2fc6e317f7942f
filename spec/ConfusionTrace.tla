--------------------------- MODULE ConfusionTrace ----------------------------
(* Confusions computed by the real code, against Confusion.                  *)
EXTENDS Confusion, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<K, matrix, n, right, c, l>>
Ev == Cases[c].ev[l]
cfg == Cases[c].cfg
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c

TraceInit == c \in DOMAIN Cases /\ l = 1 /\ CInit(Cases[c].cfg.K)
\* samples in the order of the data: the label, and the class that the model predicts
Count == Is("sample") /\ Sample(Ev.a, Ev.p)
\* what the real code reports (the same, whenever and as often as it is asked)
Mat   == Is("matrix") /\ Ev.m = matrix /\ UNCHANGED cvars
Lists == /\ Is("lists") /\ Ev.labels = cfg.labels /\ Ev.actual = cfg.actual /\ Ev.predicted = cfg.predicted
         /\ Ev.acc = right /\ UNCHANGED cvars
Top   == /\ Is("top")
         /\ (IF Ev.l = 0 THEN Ev.nil ELSE ~Ev.nil /\ TopOK(Ev.l, Ev.n, Ev.idx, Ev.counts)) = TRUE
         /\ UNCHANGED cvars
Tops  == /\ Is("tops") /\ Len(Ev.idx) = K /\ Len(Ev.counts) = K
         /\ (\A i \in 1..K : TopOK(i, Ev.n, Ev.idx[i], Ev.counts[i])) = TRUE
         /\ UNCHANGED cvars
Prt   == Is("print") /\ (PrintOK(Ev.n, Ev.lines)) = TRUE /\ UNCHANGED cvars
TraceNext == Count \/ Mat \/ Lists \/ Top \/ Tops \/ Prt
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
