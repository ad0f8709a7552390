----------------------------- MODULE PlaneTrace -----------------------------
EXTENDS Plane, TraceBase
GStart(e) == 0
GPost(s, e) == s
GWhy(s, e) == PVerdict(e)
=============================================================================
