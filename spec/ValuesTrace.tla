---------------------------- MODULE ValuesTrace ----------------------------
EXTENDS Values, TraceBase
GStart(e) == Start0
GPost(s, e) == VDo(s, e)
GWhy(s, e) == VVerdict(s, e)
=============================================================================
