----------------------------- MODULE RouteTrace -----------------------------
EXTENDS Route, TraceBase
GStart(e) == R0
GPost(s, e) == RPost(s, e)
GWhy(s, e) == RVerdict(s, e)
=============================================================================
