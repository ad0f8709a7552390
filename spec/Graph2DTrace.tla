---------------------------- MODULE Graph2DTrace ----------------------------
EXTENDS Graph2D, TraceBase
GStart(e) == S0
GPost(s, e) == Do(s, e)
GWhy(s, e) == PVerdict(s, e)
=============================================================================
