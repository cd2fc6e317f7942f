------------------------------- MODULE MCTree -------------------------------
(* Exhaustive exploration of Tree for every tiny data set and option.        *)
EXTENDS Tree, TLC, IOUtils

CONSTANTS N, NF, V, HS

GS == {-1, 2}

Configs == [ xgb : BOOLEAN,
             X : [1..N -> [1..NF -> 0..V]],
             g : [1..N -> GS], h : [1..N -> HS],
             mcw : {1, 2}, depth : {0, 1, 2}, lam : {0, 4}, gam : {0, 2},
             cols : {<<>>, <<NF>>}, rows : {[i \in 1..N |-> i]} ]

Init == /\ cfg \in Configs
        /\ ~cfg.xgb => (cfg.lam = 0 /\ cfg.gam = 0 /\ \A i \in 1..N : cfg.h[i] = 1)
        /\ Start(cfg)
Next == TNext \/ (pend = <<>> /\ UNCHANGED tvars)
Spec == Init /\ [][Next]_tvars /\ WF_tvars(TNext)
Terminates == <>(pend = <<>>)
=============================================================================
