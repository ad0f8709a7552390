----------------------------- MODULE RobotTrace -----------------------------
EXTENDS Robot, TraceBase
GStart(e) == [k \in 0..2 |-> Default]
GPost(s, e) == BDo(s, e)
GWhy(s, e) == BVerdict(s, e)
=============================================================================
