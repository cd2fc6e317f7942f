---------------------------- MODULE ReportTrace -----------------------------
(* What the real code printed, against Report.                               *)
EXTENDS Report, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l>>
Ev == Cases[c].ev[l]
cfg == Cases[c].cfg
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c
TraceInit == c \in DOMAIN Cases /\ l = 1

Same(a, b) == IF a.t # b.t \/ a.ind # b.ind THEN FALSE
              ELSE CASE a.t = "leaf"  -> Near(a.val, b.val, 1) /\ a.rows = b.rows
                     [] a.t = "split" -> (a.name = b.name \/ (a.num /\ a.name = b.num)) /\ Near(a.thr, b.thr, 1)
                     [] OTHER -> TRUE
TreeOK == LET ls == TLCEval(Lines(cfg.nodes, 1, 0, Ev.names))
          IN Len(ls) = Len(Ev.lines) /\ \A i \in DOMAIN ls : Same(ls[i], Ev.lines[i])
OptsOK == /\ Ev.kind = (IF Ev.o.xgb THEN "xgboost" ELSE "gboost")
          /\ {Ev.fields[i].tag : i \in DOMAIN Ev.fields} = Shown(Ev.o)
          /\ Len(Ev.fields) = Cardinality(Shown(Ev.o))
          /\ \A i \in DOMAIN Ev.fields : Near(Ev.fields[i].val, Ev.o[Ev.fields[i].tag], IF Ev.fields[i].tag \in {"r", "md"} THEN 0 ELSE 1)
DataOK == Ev.keys = Ev.d.keys /\ <<Ev.d.keys>> \o Ev.rows = DataLines(Ev.d)
MatOK == Ev.rows = Ev.m
NodeOK == /\ {Ev.fields[i].tag : i \in DOMAIN Ev.fields} = NodeShown
          /\ Len(Ev.fields) = Cardinality(NodeShown)
          /\ \A i \in DOMAIN Ev.fields :
                LET t == Ev.fields[i].tag
                    v == Ev.fields[i].val
                IN IF t \in {"score", "Value", "Threshold"} THEN Len(v) = 1 /\ Near(v[1], Ev.n[t][1], 1)
                   ELSE v = Ev.n[t]
CourseOK == Ev.lines = Course(Ev.losses)
TraceNext == \/ Is("tree") /\ (TreeOK = TRUE)
             \/ Is("opts") /\ (OptsOK = TRUE)
             \/ Is("data") /\ (DataOK = TRUE)
             \/ Is("matrix") /\ (MatOK = TRUE)
             \/ Is("node") /\ (NodeOK = TRUE)
             \/ Is("course") /\ (CourseOK = TRUE)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
