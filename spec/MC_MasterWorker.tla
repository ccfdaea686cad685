-------------------------- MODULE MC_MasterWorker --------------------------
EXTENDS MasterWorker
============================================================================
