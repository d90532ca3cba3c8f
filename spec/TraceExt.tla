------------------------------ MODULE TraceExt --------------------------------
(***************************************************************************)
(* Validates what the real extension did against Extension.tla.  `boot`    *)
(* starts a new extension; behind an event which is not allowed, the       *)
(* validation goes on at the next one.                                     *)
(***************************************************************************)
EXTENDS Extension, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)

VARIABLES x, l, ok
View == l
TraceInit == x = Boot /\ l = 1 /\ ok = TRUE
TraceNext ==
  \/ /\ l <= Len(Trace)
     /\ l' = l + 1
     /\ LET e == Trace[l] IN
        IF e.e = "boot" THEN x' = Boot /\ ok' = TRUE
        ELSE IF ~ok THEN UNCHANGED <<x, ok>>
        ELSE IF Allowed(x, e) THEN x' = After(x, e) /\ ok' = TRUE
        ELSE PrintT(<<"MISMATCH", l, {e.e}>>) /\ x' = x /\ ok' = FALSE
  \/ /\ l = Len(Trace) + 1
     /\ l' = l + 1 /\ PrintT(<<"DONE", l, 0>>) /\ UNCHANGED <<x, ok>>
===============================================================================
