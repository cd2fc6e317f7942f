-------------------------- MODULE ImportanceTrace ----------------------------
(* Importances reported by the real code. Gains are integers: thousandths in *)
(* exact cases (as the report prints them), 10^-5 in the others.             *)
EXTENDS Importance, Json, IOUtils, Rat
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l, books   \* books: set of importances -> contributions to it
vars == <<c, l, books, jobs, pc, lock, found, feats, gains>>
Ev == Cases[c].ev[l]
cfg == Cases[c].cfg
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED <<c, jobs, pc, lock, found, feats, gains>>
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ books = <<>> /\ IInit(<<>>)
Book(b) == IF b \in DOMAIN books THEN books[b] ELSE <<>>

\* a split of a tree, or a contribution added by a goroutine
Split == Is("split") /\ books' = (Ev.b :> Append(Book(Ev.b), <<Ev.f, Ev.g>>)) @@ books
\* everything in one set added to another one
MergeIn == Is("merge") /\ books' = (Ev.b :> (Book(Ev.b) \o Book(Ev.from))) @@ books
Eq(a, b) == IF cfg.exact THEN a = b ELSE Near(a, b * 100, 60 + cfg.splits)
Report == /\ Is("report")
          /\ (/\ ~Ev.err /\ Ev.xgb = cfg.xgb /\ Ev.kind = cfg.xgb /\ Ev.len = Len(Ev.rep) /\ Ev.numbered
              /\ ReportOK(Book(Ev.b), Ev.rep, cfg.xgb, Eq)) = TRUE
          /\ UNCHANGED books
\* totals that were not sorted
Totals == /\ Is("totals")
          /\ LET b == Book(Ev.b) IN
             (/\ {Ev.rep[i][1] : i \in DOMAIN Ev.rep} = Used(b) /\ Len(Ev.rep) = Cardinality(Used(b))
              /\ \A i \in DOMAIN Ev.rep : Eq(Total(b, Ev.rep[i][1]), Ev.rep[i][2])) = TRUE
          /\ UNCHANGED books
\* a tree without splits has nothing to report
Empty == Is("none") /\ Book(Ev.b) = <<>> /\ UNCHANGED books
TraceNext == Split \/ MergeIn \/ Report \/ Totals \/ Empty
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
