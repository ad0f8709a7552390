----------------------------- MODULE TraceBase -----------------------------
(* Trace validation, shared by every module.  A trace is what a conformance  *)
(* driver recorded from the real library: scenarios, each a "begin" event    *)
(* followed by one event per public call.  The three operators are supplied  *)
(* by the module being checked (cfg substitution):                           *)
(*   Start(e)    abstract state at the start of scenario e                   *)
(*   Post(s, e)  abstract state after event e, from the specification action *)
(*   Why(s, e)   <<>> if the observed answer is one the specification allows *)
(*               in s, otherwise <<property id, reason>>                     *)
(* A rejected event is reported and the rest of its scenario skipped, so one *)
(* rejection never leaves the remaining scenarios unexamined.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANTS Start(_), Post(_, _), Why(_, _)

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, st, scn, skip
tvars == <<l, st, scn, skip>>

Report(e, w) ==
  PrintT("BAD " \o ToJson([scn |-> scn, line |-> l, op |-> e.op,
                           prop |-> w[1], why |-> w[2]]))
TInit == l = 1 /\ st = 0 /\ scn = -1 /\ skip = TRUE
TNext ==
  /\ l <= Len(Trace)
  /\ l' = l + 1
  /\ LET e == Trace[l] IN
     IF e.op = "begin" THEN st' = Start(e) /\ scn' = e.scn /\ skip' = FALSE
     ELSE IF skip THEN UNCHANGED <<st, scn, skip>>
     ELSE LET w == IF e.op = "crash" THEN <<"*", "the library crashed or hung">>
                   ELSE Why(st, e)
          IN /\ scn' = scn
             /\ IF w = <<>> THEN st' = Post(st, e) /\ skip' = FALSE
                ELSE Report(e, w) /\ st' = 0 /\ skip' = TRUE
TSpec == TInit /\ [][TNext]_tvars
Accepted ==
  /\ PrintT("CONSUMED " \o ToString(TLCGet("stats").diameter - 1) \o " OF "
            \o ToString(Len(Trace)))
  /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
