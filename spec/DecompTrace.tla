---------------------------- MODULE DecompTrace ----------------------------
EXTENDS Decomp, TraceBase
GStart(e) == DStart
GPost(s, e) == s
GWhy(s, e) == DWhy(e)
=============================================================================
