---------------------------- MODULE OptionTrace ------------------------------
EXTENDS OptionSet, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES c, l
vars == <<c, l, opts>>
Ev == Cases[c].ev[l]
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c
TraceInit == c \in DOMAIN Cases /\ l = 1 /\ OInit
TraceNext ==
    \/ Is("new") /\ New(Ev.o, Ev.f)
    \/ Is("set") /\ SetField(Ev.o, Ev.k, Ev.v)
    \/ Is("clone") /\ Clone(Ev.from, Ev.o)
    \/ Is("look") /\ opts[Ev.o] = Ev.f /\ UNCHANGED opts
    \/ Is("equal") /\ Ev.v = Equal(Ev.a, Ev.b) /\ UNCHANGED opts
    \/ Is("check") /\ Ev.ok = Valid(opts[Ev.o]) /\ UNCHANGED opts
TraceSpec == TraceInit /\ [][TraceNext]_vars
Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
