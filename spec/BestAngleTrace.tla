--------------------------- MODULE BestAngleTrace ---------------------------
EXTENDS BestAngle, TraceBase
GStart(e) == BStart
GPost(s, e) == BDo(s, e)
GWhy(s, e) == BWhy(s, e)
=============================================================================
