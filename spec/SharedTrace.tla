------------------------------ MODULE SharedTrace --------------------------------
EXTENDS SharedContract, TraceLib
===============================================================================
