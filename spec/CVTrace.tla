------------------------------ MODULE CVTrace -------------------------------
(* Recorded cross-validations against CrossVal, and recorded accuracies.     *)
(* The loss function in the options says with how many samples and classes   *)
(* each model was trained: an odd sample out of the training set is one      *)
(* class fewer.                                                              *)
EXTENDS CrossVal, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<tot, nf, used, calls, tests, parts, c, l>>
cfg == Cases[c].cfg
Ev == Cases[c].ev[l]
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c
T == INSTANCE Tree WITH cfg <- <<>>, pend <- <<>>, nodes <- <<>>

TraceInit == /\ c \in DOMAIN Cases /\ l = 1
             /\ CInit(cfg.tot, cfg.req)

Fit == /\ Is("fit")
       /\ calls < nf
       /\ LET size == tot - Ev.rows
              odd  == cfg.common + cfg.odd - Ev.classes
          IN /\ size >= tot \div nf
             /\ Ev.rows >= cfg.minsample
             /\ odd \in 0..size
             /\ FoldDone(size, size - odd)
       /\ calls' = calls + 1
       /\ UNCHANGED <<tot, nf, used, tests>>

ResultOK ==
    IF nf = 0
    THEN /\ Ev.err
         /\ Ev.conc => Ev.errs = <<TRUE>> /\ Ev.accs = <<-10000>> /\ Ev.opts = <<"nil">>
    ELSE /\ ~Ev.err
         \* folds with too few samples to train have no model, and nothing right
         /\ LET left == tot - Total(LAMBDA p : p.size)
            IN /\ left >= (nf - calls) * Max({tot - cfg.minsample + 1, tot \div nf})
               /\ (calls = nf) => left = 0 /\ Total(LAMBDA p : p.right) = tot - cfg.odd
         /\ Near(Ev.acc, Mean, 2)
         /\ Ev.conc => Ev.errs = <<FALSE>> /\ Len(Ev.accs) = 1 /\ Near(Ev.accs[1], Mean, 2)
                       /\ Ev.opts = <<"given">>
Result == Is("result") /\ (ResultOK = TRUE) /\ UNCHANGED cvars

\* Without options. The folds are all of the same size: the mean is the overall
\* fraction, whatever the folds are.
Plain == /\ Is("plain") /\ Ev.nf = nf /\ tot % nf = 0 /\ ~Ev.err
         /\ LET m == Sc(tot - cfg.odd, tot, 1000000)
            IN /\ Near(Ev.acc, m, 2)
               /\ (Ev.conc => Ev.errs = <<FALSE>> /\ Len(Ev.accs) = 1 /\ Near(Ev.accs[1], m, 2) /\ Ev.opts = <<TRUE>>) = TRUE
         /\ UNCHANGED cvars

----------------------------------------------------------------------------
\* Accuracy of a model with known trees: cfg.model[k] is the list of trees
\* of class k, as preorder lists of nodes.
Score(k, x) == FoldSeq(LAMBDA t, a : a + t[T!Route(t, 1, x)].val, 0, cfg.model[k])
Preds(x) == LET s == TLCEval([k \in DOMAIN cfg.model |-> Score(k, x)])
                m == Max({s[k] : k \in DOMAIN s})
            IN {cfg.labels[k] : k \in {j \in DOMAIN s : s[j] = m}}
AccRange ==
    LET must == Cardinality({i \in DOMAIN Ev.X : Preds(Ev.X[i]) = {Ev.y[i]}})
        may  == Cardinality({i \in DOMAIN Ev.X : Ev.y[i] \in Preds(Ev.X[i])})
    IN must..may
\* the percentages are those of whole numbers of samples, the same for all the
\* ways of asking
Whole == \A i \in DOMAIN Ev.dev : Near(Ev.dev[i], 0, 10)
Acc == /\ Is("acc")
       /\ (\E r \in AccRange : \A i \in DOMAIN Ev.accs : Ev.accs[i] = r) = TRUE
       /\ Whole
       /\ UNCHANGED cvars
\* Accuracy of a trained model, from the labels it predicts
AccP == /\ Is("accp")
        /\ LET r == Cardinality({i \in DOMAIN Ev.pred : Ev.pred[i] = Ev.y[i]})
           IN \A i \in DOMAIN Ev.accs : Ev.accs[i] = r
        /\ Whole
        /\ UNCHANGED cvars

TraceNext == Fit \/ Plain \/ Result \/ Acc \/ AccP
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
