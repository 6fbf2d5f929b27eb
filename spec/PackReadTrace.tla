----------------------------- MODULE PackReadTrace ----------------------------
EXTENDS PackReadContract, TraceLib
===============================================================================
