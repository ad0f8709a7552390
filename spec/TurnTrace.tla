----------------------------- MODULE TurnTrace -----------------------------
EXTENDS Turn, TraceBase
GStart(e) == T0
GPost(s, e) == TDo(s, e)
GWhy(s, e) == TWhy(s, e)
=============================================================================
