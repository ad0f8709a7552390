---------------------------- MODULE RegionQTrace ----------------------------
EXTENDS RegionQ, TraceBase
GStart(e) == QStart
GPost(s, e) == QDo(s, e)
GWhy(s, e) == QWhy(s, e)
=============================================================================
