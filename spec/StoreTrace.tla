----------------------------- MODULE StoreTrace -----------------------------
(* Histories of operations of the real code against Store.                   *)
EXTENDS Store, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<content, seen, fresh, c, l>>
Ev == Cases[c].ev[l]
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c

TraceInit == c \in DOMAIN Cases /\ l = 1 /\ SInit
TraceNext ==
    \/ Is("new") /\ New(Ev.o)
    \/ Is("train") /\ Train(Ev.o, Ev.d, Ev.opt, Ev.det)
    \/ Is("copy") /\ Copy(Ev.from, Ev.o)
    \/ Is("obs") /\ Observe(Ev.o, Ev.q, Ev.v)
    \/ Is("loud") /\ Loud(Ev.o, Ev.b)
    \* the activation function written by name is the one used
    \/ Is("activation") /\ ((Ev.calls > 0) = Ev.mine) /\ UNCHANGED svars
    \/ Is("nop") /\ UNCHANGED svars
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
