--------------------------- MODULE FieldRefTrace ---------------------------
EXTENDS FieldRef, TraceBase
GStart(e) == Start0
GPost(s, e) == FDo(s, e)
GWhy(s, e) == FVerdict(s, e)
=============================================================================
