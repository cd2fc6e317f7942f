------------------------------ MODULE MCSample ------------------------------
EXTENDS Sample
Done == rnd > MaxRounds /\ UNCHANGED svars
Spec == SInit /\ [][SNext \/ Done]_svars /\ WF_svars(SNext)
Terminates == <>(rnd > MaxRounds)
=============================================================================
