------------------------------- MODULE MCRace -------------------------------
EXTENDS Race
=============================================================================
