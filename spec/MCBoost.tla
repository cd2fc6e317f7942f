------------------------------ MODULE MCBoost ------------------------------
EXTENDS Boost, TLC, Json
Done == rnd > MaxRounds /\ UNCHANGED bvars
Spec == BInit /\ [][BNext \/ Done]_bvars /\ WF_bvars(BNext)
Terminates == <>(rnd > MaxRounds)
View == <<E, rnd, k, fitted, score, trees, hist, stopped, prev, noprog>>
\* histories of losses, to be replayed in the real code
Scen == rnd > MaxRounds => PrintT(<<"SCEN", ToJson([E |-> E, R |-> MaxRounds, loss |-> hist])>>)
=============================================================================
