--------------------------- MODULE ReadStreamTrace ----------------------------
EXTENDS ReadStreamContract, TraceLib
===============================================================================
