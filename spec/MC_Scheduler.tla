--------------------------- MODULE MC_Scheduler ---------------------------
EXTENDS Scheduler
===========================================================================
