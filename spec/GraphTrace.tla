----------------------------- MODULE GraphTrace -----------------------------
EXTENDS Graph, TraceBase
GStart(e) == Empty
GPost(s, e) == Edit(s, e)
GWhy(s, e) == Verdict(s, e)
=============================================================================
