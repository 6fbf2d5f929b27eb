------------------------------ MODULE DeltaTrace ------------------------------
EXTENDS DeltaContract, TraceLib
===============================================================================
