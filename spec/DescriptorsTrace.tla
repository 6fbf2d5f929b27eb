--------------------------- MODULE DescriptorsTrace -----------------------------
EXTENDS DescriptorsContract, TraceLib
===============================================================================
