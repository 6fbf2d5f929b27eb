---------------------------- MODULE ReadFaultTrace ----------------------------
EXTENDS ReadFaultContract, TraceLib
===============================================================================
