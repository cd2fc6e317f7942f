----------------------------- MODULE TextTrace -------------------------------
(* What the real readers make of texts, and what the writers write.          *)
EXTENDS Text, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l>>
Ev == Cases[c].ev[l]
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c
TraceInit == c \in DOMAIN Cases /\ l = 1

ErrRes(x) == x.err /\ x.nil
DataRes(x, s) == ~x.err /\ ~x.nil /\ x.data = s.data /\ x.labels = s.labels /\ x.keys = s.keys
Agrees(x, s) == IF s.r = "error" THEN ErrRes(x)
                ELSE IF s.any THEN ErrRes(x) \/ (~x.err /\ ~x.nil)
                ELSE DataRes(x, s) \/ (s.open /\ ErrRes(x))
CSV == Is("csv") /\ (Agrees(Ev.res, ReadCSV(Ev.t, Ev.hdr, Ev.lab, Ev.sep))) = TRUE
SVM == Is("svm") /\ (Agrees(Ev.res, ReadSVM(Ev.t, Ev.hdr))) = TRUE

\* names: a map, given as its pairs
NamesAgree(x, s) ==
    IF s.r = "error" THEN x.err
    ELSE IF s.any \/ (s.open /\ x.err) THEN TRUE
    ELSE /\ ~x.err
         /\ ToSet(x.labels) = ToSet(s.labels) /\ Len(x.labels) = Cardinality(ToSet(s.labels))
         /\ \A i \in DOMAIN x.labels : \E j \in DOMAIN s.labels : s.labels[j] = x.labels[i] /\ s.keys[j] = x.keys[i]
Names == Is("names") /\ (NamesAgree(Ev.res, ReadNames(Ev.t, Ev.sep))) = TRUE

\* Documents given by fields: lines is a sequence of [lab, vals, bad]; values
\* and labels are written in full, so that they can be any number.
DocAgrees(x) ==
    LET ln == Ev.lines
    IN IF Ev.broken \/ (\E i \in DOMAIN ln : ln[i].bad) \/ (\E i \in DOMAIN ln : Len(ln[i].vals) # Len(ln[1].vals))
       THEN ErrRes(x)
       ELSE /\ ~x.err /\ ~x.nil
            /\ x.data = [i \in DOMAIN ln |-> ln[i].vals]
            /\ x.labels = (IF Ev.lab THEN [i \in DOMAIN ln |-> ln[i].lab] ELSE <<>>)
            /\ x.keys = Ev.keys
Doc == Is("doc") /\ (DocAgrees(Ev.res)) = TRUE

\* what the library writes, read back
Back == /\ Is("back")
        /\ (/\ ~Ev.res.err /\ ~Ev.res.nil /\ Ev.res.data = Ev.data /\ Ev.res.keys = Ev.keys
            \* features are numbered from one
            /\ \A i \in DOMAIN Ev.nums : Ev.nums[i] = [j \in 1..Len(Ev.data[1]) |-> j]
            /\ Ev.res.labels = (IF Ev.labels = <<>> THEN [i \in DOMAIN Ev.data |-> "-1"] ELSE Ev.labels)) = TRUE
Empty == Is("empty") /\ (~Ev.panic /\ Ev.txt = "") = TRUE
\* a file that is not there, or a device that fails, is an error
Bad == Is("failing") /\ (ErrRes(Ev.res)) = TRUE
\* any text at all: no panic, and no data with an error
AnyText == Is("any") /\ (ErrRes(Ev.res) \/ (~Ev.res.err /\ ~Ev.res.nil)) = TRUE
TraceNext == CSV \/ SVM \/ Names \/ Doc \/ Back \/ Empty \/ Bad \/ AnyText
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
