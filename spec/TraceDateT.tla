---- MODULE TraceDateT ----
(* Trace specification: every recorded line must be explained by an action   *)
(* of DateT. The recorded file is named by the environment variable TRACE.      *)
EXTENDS DateT, IOUtils
VARIABLE l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TraceInit == Init /\ l = 1
TraceNext ==
    /\ l <= Len(Trace)
    /\ l' = l + 1
    /\ LET e == Trace[l] IN
          /\ op' = e.o
          /\ IF e.o[1] = "reset" THEN Reset(e) /\ Match(e) ELSE IF e.o[1] \in {"now", "nowutc"} THEN Now(e) ELSE Do(e.o) /\ Match(e)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
====
