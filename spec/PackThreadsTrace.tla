---------------------------- MODULE PackThreadsTrace ----------------------------
EXTENDS PackThreadsContract, TraceLib
===============================================================================
