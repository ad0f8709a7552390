------------------------------ MODULE RplanTrace ---------------------------
EXTENDS Rplan, TraceBase
GStart(e) == 0
GPost(s, e) == s
GWhy(s, e) == RWhy(s, e)
=============================================================================
