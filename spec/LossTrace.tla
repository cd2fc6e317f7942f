----------------------------- MODULE LossTrace -------------------------------
EXTENDS Loss, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l, reg>>
Ev == Cases[c].ev[l]
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ LInit

\* the matrix returned is the one written
TSet  == Is("set") /\ Set(Ev.r, Ev.m)
TGrad == Is("grad") /\ Grad(Ev.y, Ev.p, Ev.dst) /\ Ev.m = reg'[Ev.dst]
TNeg  == Is("neg") /\ Neg(Ev.y, Ev.p, Ev.dst) /\ Ev.m = reg'[Ev.dst]
THess == Is("hess") /\ Hess(Ev.loss, Ev.p, Ev.dst) /\ Ev.m = reg'[Ev.dst]
\* the loss times 64 times the number of elements is a whole number
TLoss == /\ Is("loss") /\ LossOf(reg[Ev.y], reg[Ev.p]) = <<Ev.v, Ev.n>> /\ Ev.whole
         /\ UNCHANGED reg
\* registers that were not written keep what they had, and so does the
\* matrix around a register that is a view of it
Look  == Is("look") /\ reg[Ev.r] = Ev.m /\ Ev.around /\ UNCHANGED reg

\* one row of softmax: exponents (16ths, in 10^-4), sum, all non negative
SoftRow(x, e, sum, neg) ==
    /\ ~neg /\ Near(sum, 100000000, 4) /\ Len(e) = Len(x)
    /\ \E se \in {SoftExp(x)} : \A i \in DOMAIN x :
         LET w == se[i]
         IN IF Vanishes(w) THEN e[i] <= -1000 * 160000
            ELSE IF Near0(w) THEN e[i] <= -900 * 160000
            ELSE Near(e[i], w * 10000, 20)
TSoft == /\ Is("softmax") /\ Len(Ev.out) = Len(Ev.x)
         /\ (\A i \in DOMAIN Ev.x : SoftRow(Ev.x[i], Ev.out[i], Ev.sum[i], Ev.neg[i])) = TRUE
         /\ Ev.same /\ UNCHANGED reg
\* inputs too different for the projection: only which ones are the largest
TBig  == /\ Is("softbig")
         /\ (LET x == Ev.x  \* ranks
                 top == {i \in DOMAIN x : x[i] = MaxOf(x)}
             IN \A i \in DOMAIN x : Ev.out[i] = (IF i \in top THEN Sc(1, Cardinality(top), 100000) ELSE 0)) = TRUE
         /\ Ev.same /\ UNCHANGED reg
TNorm == /\ Is("norm") /\ Len(Ev.out) = Len(Ev.x)
         /\ (\A i \in DOMAIN Ev.x : \E no \in {NormOf(Ev.x[i], 100000)} : \A j \in DOMAIN no : Near(Ev.out[i][j], no[j], 2)) = TRUE
         /\ Ev.same /\ UNCHANGED reg
\* p = k e or 1 - k e, with e so small that p(1-p) is k e (e: 2^-30 or less)
TTiny == /\ Is("tiny") /\ (Ev.out = Map1(Ev.x, LAMBDA k : 10000 * k)) = TRUE /\ UNCHANGED reg
TName == Is("name") /\ Ev.v = Ev.want /\ UNCHANGED reg
TraceNext == TSet \/ TGrad \/ TNeg \/ THess \/ TLoss \/ Look \/ TSoft \/ TBig \/ TNorm \/ TName \/ TTiny
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
