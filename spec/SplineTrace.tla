---------------------------- MODULE SplineTrace ----------------------------
EXTENDS Spline, TraceBase
GStart(e) == NoSpline
GPost(s, e) == PDo(s, e)
GWhy(s, e) == PVerdict(s, e)
=============================================================================
