------------------------------ MODULE CurveTrace ----------------------------
EXTENDS Curve, TraceBase
GStart(e) == VStart
GPost(s, e) == VDo(s, e)
GWhy(s, e) == VWhy(s, e)
=============================================================================
