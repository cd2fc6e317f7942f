----------------------------- MODULE TreeTrace -----------------------------
(* Trees built by the real code, node by node, against Tree.                 *)
(* MODE selects the property decided: "structure" (C01), "gain" (C02) or     *)
(* "value" (C03).                                                            *)
EXTENDS Tree, TLC, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.TRACE)
MODE  == IOEnv.MODE

VARIABLES c, l, vals   \* case, next event, logged leaf values
vars == <<cfg, pend, nodes, c, l, vals>>

Ev == Cases[c].ev[l]
Is(e) == l <= Len(Cases[c].ev) /\ Ev.e = e /\ l' = l + 1 /\ UNCHANGED c

TraceInit == /\ c \in DOMAIN Cases
             /\ l = 1
             /\ cfg = Cases[c].cfg
             /\ vals = <<>>
             /\ Start(cfg)

\* The threshold that was logged separates two neighbouring values lo < hi of
\* the node, and it is their midpoint.
LoHi(S, f, thr) ==
    LET vs == {cfg.X[i][f] : i \in S}
    IN <<Max({v \in vs : v <= thr}), Min({v \in vs : v > thr})>>

LeafEvent ==
    /\ Is("node") /\ Ev.leaf
    /\ pend # <<>>
    /\ (MODE = "structure") =>
          /\ ToSet(Ev.rows) = Head(pend).rows
          /\ Len(Ev.rows) = Cardinality(Head(pend).rows)
          /\ Ev.ns = Len(Ev.rows)
          /\ ~Ev.hasl /\ ~Ev.hasr /\ Ev.jleaf
          /\ Ev.xgb = cfg.xgb
    /\ (MODE = "gain") => MayBeLeaf(cfg, Head(pend))
    /\ (MODE = "value") => Near(Ev.val, LeafVal(cfg, Head(pend).rows), 2)
    /\ vals' = Append(vals, Ev.val)
    /\ nodes' = Append(nodes, [leaf |-> TRUE, rows |-> Head(pend).rows,
                               d |-> Head(pend).d, f |-> 0, thr |-> 0, br |-> Ev.br, br2 |-> Ev.branches])
    /\ pend' = Tail(pend)
    /\ UNCHANGED cfg

SplitEvent ==
    /\ Is("node") /\ ~Ev.leaf
    /\ pend # <<>>
    /\ LET nd == Head(pend)
           S  == nd.rows
           L  == LeftOf(cfg, S, Ev.f, Ev.thr)
       IN /\ Ev.f \in 1..Len(cfg.X[1])
          /\ L # {} /\ L # S
          /\ Ev.hasl /\ Ev.hasr
          /\ (MODE = "structure") =>
                /\ nd.d > 0
                /\ ToSet(Ev.rows) = S
                /\ Len(Ev.rows) = Cardinality(S)
                /\ Ev.ns = Len(Ev.rows)
                /\ Admissible(cfg, S, Ev.f, Ev.thr)
                /\ LoHi(S, Ev.f, Ev.thr) \in ToSet(Ev.mids)
                /\ ~Ev.jleaf
                /\ Ev.xgb = cfg.xgb
          /\ (MODE = "gain") =>
                \E s \in BestSplits(cfg, S) :
                    /\ s.f = Ev.f
                    /\ s.lo <= Ev.thr /\ Ev.thr < s.hi
                    /\ Near(Ev.gain, GainVal(cfg, S, s), 6)
          /\ nodes' = Append(nodes, [leaf |-> FALSE, rows |-> S, d |-> nd.d,
                                     f |-> Ev.f, thr |-> Ev.thr, br |-> Ev.br, br2 |-> Ev.branches])
          /\ pend' = <<[rows |-> L, d |-> nd.d - 1],
                       [rows |-> S \ L, d |-> nd.d - 1]>> \o Tail(pend)
    /\ vals' = Append(vals, 0)
    /\ UNCHANGED cfg

PredictEvent ==
    /\ Is("predict")
    /\ pend = <<>>
    /\ (MODE = "value") =>
          LET v == vals[Route(nodes, 1, Ev.q)]
          IN Ev.one = v /\ Ev.all = v /\ Ev.buf = v /\ Ev.ret = v
    /\ UNCHANGED <<cfg, pend, nodes, vals>>

BatchEvent ==
    /\ Is("batch")
    /\ (MODE = "value") => Ev.same
    /\ UNCHANGED <<cfg, pend, nodes, vals>>

EndEvent ==
    /\ Is("end")
    /\ pend = <<>>
    /\ (MODE = "structure") => \A k \in DOMAIN nodes : nodes[k].br = Size(nodes, k) /\ nodes[k].br2 = Size(nodes, k)
    /\ UNCHANGED <<cfg, pend, nodes, vals>>

TraceNext == LeafEvent \/ SplitEvent \/ PredictEvent \/ BatchEvent \/ EndEvent
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* the invariants of the design, in every state of the real run
DesignInv == MODE = "structure" => PartitionInv /\ DepthInv /\ ColsInv /\ MinChildInv

Progress == (l > Len(Cases[c].ev)) => PrintT(<<"ACC", Cases[c].id>>)
Deep     == (IOEnv.SHOWL = "1") => PrintT(<<"AT", Cases[c].id, l>>)
=============================================================================
