---------------------------- MODULE PackIndexTrace ----------------------------
EXTENDS PackIndexContract, TraceLib
===============================================================================
