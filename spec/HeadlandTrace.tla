---------------------------- MODULE HeadlandTrace ---------------------------
EXTENDS Headland, TraceBase
GStart(e) == 0
GPost(s, e) == s
GWhy(s, e) == HWhy(s, e)
=============================================================================
