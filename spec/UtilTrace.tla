----------------------------- MODULE UtilTrace -------------------------------
EXTENDS Util, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l, cell, view, sorter>>
Ev == Cases[c].ev[l]
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ UInit

TOneHot == Is("onehot") /\ Keep /\ (Ev.d = Distinct(Ev.s) /\ Ev.m = OneHot(Ev.s) /\ Ev.after = Ev.s) = TRUE
TPick   == Is("pick") /\ Keep /\ (Ev.ok = CanPick(Ev.s, Ev.ix) /\ (Ev.ok => Ev.out = Pick(Ev.s, Ev.ix)) /\ Ev.after = Ev.s) = TRUE
TSub    == Is("sub") /\ Keep /\ (Ev.out = PickMat(Ev.m, Ev.rows, Ev.cols) /\ Ev.after = Ev.m) = TRUE
TTrans  == Is("transpose") /\ Keep /\ (Ev.out = Transposed(Ev.m) /\ Ev.after = Ev.m) = TRUE
TArg    == Is("argsort") /\ Keep /\ (IsArgSort(Ev.s, Ev.ix, Ev.out) /\ Ev.after = Ev.s) = TRUE
TClass  == Is("classes") /\ Keep /\ (Ev.out = Classes(Ev.m) /\ Ev.after = Ev.m) = TRUE
\* exp of the log-odds, and of its opposite, in 10^-5
OddsRow(row, out, inv) == \A j \in DOMAIN row :
    LET o == Odds(row)[j] IN
    /\ IF o[2] = 0 THEN out[j] = 1000000000 ELSE Near(out[j], Sc(o[1], o[2], 100000), 3)
    /\ IF o[1] = 0 THEN inv[j] = 1000000000 ELSE Near(inv[j], Sc(o[2], o[1], 100000), 3)
TOdds   == Is("odds") /\ Keep /\ (Len(Ev.out) = Len(Ev.m) /\ (\A i \in DOMAIN Ev.m : Len(Ev.out[i]) = Len(Ev.m[i]) /\ OddsRow(Ev.m[i], Ev.out[i], Ev.inv[i])) /\ Ev.after = Ev.m) = TRUE

TSet    == Is("set") /\ SetMat(Ev.n, Ev.m)
TView   == Is("view") /\ MkView(Ev.n, Ev.of, Ev.r0, Ev.c0, Ev.r, Ev.c)
TCol    == Is("col") /\ Keep /\ (Ev.ok = CanCol(Ev.n, Ev.col) /\ (Ev.ok => Ev.out = Col(Ev.n, Ev.col))) = TRUE
TAdd    == Is("add") /\ IF CanAdd(Ev.n, Ev.s, Ev.col) THEN Ev.ok /\ AddCol(Ev.n, Ev.s, Ev.col) ELSE ~Ev.ok /\ Keep
TOnes   == Is("ones") /\ Ones(Ev.n)
TLook   == Is("look") /\ Keep /\ Ev.m = Seen(Ev.n)

TSorter == Is("sorter") /\ NewSorter(Ev.n, Ev.s)
TSwap   == Is("swap") /\ SwapIn(Ev.n, Ev.i, Ev.j)
TSee    == Is("see") /\ Keep /\ sorter[Ev.n] = [v |-> Ev.v, ix |-> Ev.ix]
TLess   == Is("less") /\ Keep /\ (Ev.v = (sorter[Ev.n].v[Ev.i + 1] < sorter[Ev.n].v[Ev.j + 1]) /\ Ev.len = Len(sorter[Ev.n].v)) = TRUE
\* sorting it: some sequence of swaps, that leaves it sorted
TSort   == /\ Is("sort") /\ (LET s == sorter[Ev.n] IN
                  IsPerm(Ev.ix, Len(s.v)) /\ Ascending(Ev.v)
                  /\ \E p \in {[k \in DOMAIN Ev.ix |-> (CHOOSE q \in DOMAIN s.ix : s.ix[q] = Ev.ix[k]) - 1]} : Ev.v = Pick(s.v, p)) = TRUE
           /\ sorter' = [sorter EXCEPT ![Ev.n] = [v |-> Ev.v, ix |-> Ev.ix]] /\ UNCHANGED <<cell, view>>
TraceNext == TOneHot \/ TPick \/ TSub \/ TTrans \/ TArg \/ TClass \/ TOdds \/ TSet \/ TView \/ TCol \/ TAdd \/ TOnes \/ TLook
             \/ TSorter \/ TSwap \/ TSee \/ TLess \/ TSort
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
