----------------------------- MODULE SwathTrace -----------------------------
EXTENDS Swath, TraceBase
GStart(e) == [k \in 0..3 |-> NoSwath]
GPost(s, e) == SDo(s, e)
GWhy(s, e) == SVerdict(s, e)
=============================================================================
