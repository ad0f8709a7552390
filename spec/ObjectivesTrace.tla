--------------------------- MODULE ObjectivesTrace --------------------------
EXTENDS Objectives, TraceBase
GStart(e) == 0
GPost(s, e) == s
GWhy(s, e) == OWhy(s, e)
=============================================================================
