------------------------------ MODULE WholeTrace ----------------------------
EXTENDS Whole, TraceBase
GStart(e) == 0
GPost(s, e) == s
GWhy(s, e) == WWhy(s, e)
=============================================================================
