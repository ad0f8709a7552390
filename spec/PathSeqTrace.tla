---------------------------- MODULE PathSeqTrace ---------------------------
EXTENDS PathSeq, TraceBase
GStart(e) == P0
GPost(s, e) == PDo(s, e)
GWhy(s, e) == PWhy(s, e)
=============================================================================
