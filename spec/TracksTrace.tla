---------------------------- MODULE TracksTrace ----------------------------
EXTENDS Tracks, TraceBase
GStart(e) == CStart
GPost(s, e) == CDo(s, e)
GWhy(s, e) == CWhy(s, e)
=============================================================================
