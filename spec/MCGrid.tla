------------------------------- MODULE MCGrid -------------------------------
EXTENDS Grid
=============================================================================
