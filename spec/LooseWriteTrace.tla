---------------------------- MODULE LooseWriteTrace ----------------------------
EXTENDS LooseWriteContract, TraceLib
===============================================================================
