-------------------------- MODULE MC_IslandModel --------------------------
EXTENDS IslandModel
===========================================================================
