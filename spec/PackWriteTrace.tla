---------------------------- MODULE PackWriteTrace ----------------------------
EXTENDS PackWriteContract, TraceLib
===============================================================================
