----------------------------- MODULE OrderTrace -----------------------------
EXTENDS Order, TraceBase
GStart(e) == 0
GPost(s, e) == 0
GWhy(s, e) == OVerdict(e)
=============================================================================
