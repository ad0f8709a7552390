---------------------------- MODULE RandomTrace ----------------------------
EXTENDS RandomGen, TraceBase
GStart(e) == G0
GPost(s, e) == NPost(s, e)
GWhy(s, e) == NVerdict(s, e)
=============================================================================
