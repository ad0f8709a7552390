---------------------------- MODULE ParserTrace ----------------------------
EXTENDS Parser, TraceBase
GStart(e) == NoFields
GPost(s, e) == FDo(s, e)
GWhy(s, e) == FVerdict(s, e)
=============================================================================
