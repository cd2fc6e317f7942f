----------------------------- MODULE FoldsTrace -----------------------------
(* Recorded calls of the real sampler of folds against Folds.                *)
EXTENDS CVFolds, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<tot, nf, used, calls, tests, c, l>>
cfg == Cases[c].cfg
Ev == Cases[c].ev[l]
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c

TraceInit == /\ c \in DOMAIN Cases /\ l = 1
             /\ FInit(cfg.tot, cfg.req)

\* the answer of CrossValidationSamples
Opened == /\ Is("open")
          /\ Ev.n = nf
          /\ Ev.err = Reduced(tot, cfg.req)
          /\ UNCHANGED fvars

\* the rows of a set (identified by their values), with their labels
RowsOK(rs) == /\ \A i \in DOMAIN rs.rows : rs.rows[i] \in 1..tot
              /\ Cardinality(ToSet(rs.rows)) = Len(rs.rows)
              /\ rs.keys = cfg.keys
              /\ IF cfg.labels = <<>> THEN rs.labels = <<>>
                 ELSE rs.labels = [i \in DOMAIN rs.rows |-> cfg.labels[rs.rows[i]]]

Fold == /\ Is("call") /\ ~Ev.nil
        /\ (RowsOK(Ev.test) /\ RowsOK(Ev.train)) = TRUE
        /\ Call(ToSet(Ev.test.rows))
        /\ ToSet(Ev.train.rows) = Train(ToSet(Ev.test.rows))

Over == /\ Is("call") /\ Ev.nil
        /\ calls = nf
        /\ UNCHANGED fvars

\* the data given were not changed, nor the sets returned when others were
Same == /\ Is("same") /\ Ev.v /\ UNCHANGED fvars

Done == /\ Is("done") /\ (nf > 0 => calls = nf /\ Cover /\ Disjoint /\ SizeOK /\ TrainOK) = TRUE
        /\ UNCHANGED fvars

TraceNext == Opened \/ Fold \/ Over \/ Same \/ Done
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
