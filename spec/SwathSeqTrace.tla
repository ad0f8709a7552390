--------------------------- MODULE SwathSeqTrace ---------------------------
EXTENDS SwathSeq, TraceBase
GStart(e) == Q0
GPost(s, e) == QDo(s, e)
GWhy(s, e) == QVerdict(s, e)
=============================================================================
