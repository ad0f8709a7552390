------------------------------ MODULE PlanTrace ----------------------------
EXTENDS Plan, TraceBase
GStart(e) == 0
GPost(s, e) == s
GWhy(s, e) == PWhy(s, e)
=============================================================================
