----------------------------- MODULE FileTrace ------------------------------
(* Cut and failing model files in the real code, against ModelFile.          *)
EXTENDS ModelFile, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l>>
cfg == Cases[c].cfg
Ev == Cases[c].ev[l]
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c

\* a line complete but for its newline is as good as a whole one
Eff(n, part) == IF part = "whole" THEN n + 1 ELSE n

OutOK(n, part, o) ==
    LET m == Eff(n, part)
        s == TLCEval(After(cfg.lines, m))
    IN /\ ~o.panic
       /\ IF o.err THEN ~MustRead(cfg.lines, n, part # "none")
          ELSE /\ ~MustErr(cfg.lines, m, part = "mid")
               /\ o.trees = [i \in 1..Len(s.got) |-> i]
               /\ o.rounds = [k \in 1..cfg.K |-> Cardinality({i \in DOMAIN s.got : s.got[i].k = k})]

CutEvent == Is("cut") /\ (\A i \in DOMAIN Ev.outs : OutOK(Ev.n, Ev.part, Ev.outs[i])) = TRUE
\* a line of the file can't be understood
DamageEvent == /\ Is("damage")
               /\ (After([cfg.lines EXCEPT ![Ev.n] = LBad], Len(cfg.lines)).st = "err") = TRUE
               /\ (\A i \in DOMAIN Ev.outs : Ev.outs[i].err /\ ~Ev.outs[i].panic) = TRUE
\* the last lines of a tree are missing, what follows it is there
Without(a, b) == SubSeq(cfg.lines, 1, a - 1) \o SubSeq(cfg.lines, b + 1, Len(cfg.lines))
LostEvent == /\ Is("lost")
             /\ (LET s == Without(Ev.from, Ev.to) IN Finish(After(s, Len(s)), FALSE).st = "err") = TRUE
             /\ Ev.out.err /\ ~Ev.out.panic
\* a reader or writer that fails, an unknown activation, a class out of range
ErrEvent == Is("mustfail") /\ Ev.err /\ ~Ev.panic
OkEvent  == Is("mustwork") /\ ~Ev.err /\ ~Ev.panic

TraceInit == c \in DOMAIN Cases /\ l = 1
TraceNext == CutEvent \/ DamageEvent \/ LostEvent \/ ErrEvent \/ OkEvent
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
