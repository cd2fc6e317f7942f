----------------------------- MODULE BestTrace -------------------------------
(* Searches with WriteBest: what was evaluated (options and whole part of    *)
(* their accuracy), what was returned, the text of the model trained on all  *)
(* the data with each of the options, and the files that were there.         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, evald, ret, text, files
vars == <<c, l, evald, ret, text, files>>
B == INSTANCE BestFile WITH Opts <- {}, Accs <- {}, MaxEval <- 0, tried <- <<>>, best <- 0, bestopt <- 0, pc <- ""
Ev == Cases[c].ev[l]
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ evald = <<>> /\ ret = [w |-> -1, key |-> ""] /\ text = <<>> /\ files = <<>>
Eval == Is("eval") /\ evald' = Append(evald, [w |-> Ev.w, key |-> Ev.key]) /\ UNCHANGED <<ret, text, files>>
Ret  == Is("ret") /\ ~Ev.err /\ ret' = [w |-> Ev.w, key |-> Ev.key] /\ UNCHANGED <<evald, text, files>>
\* the model of some options, as text
Model == Is("model") /\ text' = (Ev.key :> Ev.text) @@ text /\ UNCHANGED <<evald, ret, files>>
\* no two files for the same accuracy; nothing else is written
File == Is("file") /\ Ev.w \notin DOMAIN files /\ files' = (Ev.w :> Ev.text) @@ files /\ UNCHANGED <<evald, ret, text>>
\* a file holds a model, and reading it gives that model
Judge == /\ Is("judge")
         /\ (IF Cases[c].cfg.write
             THEN B!Right(files, ret.w, text[ret.key], [i \in DOMAIN evald |-> [w |-> evald[i].w, o |-> text[evald[i].key]]])
             ELSE files = <<>>) = TRUE
         /\ UNCHANGED <<evald, ret, text, files>>
TraceNext == Eval \/ Ret \/ Model \/ File \/ Judge
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
