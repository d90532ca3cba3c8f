--------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validates recorded sessions of the real server against Server.tla.      *)
(*                                                                         *)
(* The trace is a list of events, one per message, in the order in which   *)
(* the client sent or received them; `boot` starts a new session with a    *)
(* new server process and `end` asserts that nothing is left unanswered.   *)
(* An event whose aspects (those in Focus) do not all hold is recorded in  *)
(* `bad`, and the validation goes on behind it.                            *)
(***************************************************************************)
EXTENDS Server, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE_FILE)
Focus == RangeOf(JsonDeserialize(IOEnv.FOCUS_FILE))

VARIABLES l, bad
tvars == <<svars, l, bad>>

TraceInit == ServerInit /\ l = 1 /\ bad = <<>>

Ev == Trace[l]
IsEv(e) == l <= Len(Trace) /\ Trace[l].e = e

\* the violated aspects of interest, from a set of <<aspect, holds>>
Violated(A) == {x[1] : x \in {y \in A : y[1] \in Focus /\ ~y[2]}}

Report(A) ==
  LET V == Violated(A) IN
  IF V = {} THEN bad' = bad
  ELSE PrintT(<<"MISMATCH", l, V>>) /\ bad' = Append(bad, l)

Step == l' = l + 1

Boot ==
  /\ IsEv("boot") /\ Step /\ bad' = bad
  /\ phase' = "uninit" /\ lazy' = FALSE /\ roots' = <<>>
  /\ store' = Empty /\ docs' = Empty /\ pend' = Empty /\ diagq' = <<>> /\ dots' = Empty /\ acts' = Empty
  /\ late' = Empty

Req == IsEv("req") /\ Step /\ bad' = bad /\ ClientRequest(Ev.id, Ev.m, Ev.p)

Ntf ==
  /\ IsEv("ntf") /\ Step /\ bad' = bad
  /\ CASE Ev.m = "text" -> ClientText(Ev.p.u, Ev.p.v, Ev.p.t, Ev.p.json)
       [] Ev.m = "opaque" -> ClientOpaqueText(Ev.p.u, Ev.p.v)
       [] Ev.m = "close" -> ClientClose(Ev.p.u)
       [] Ev.m = "cancel" -> ClientCancel(Ev.p.id)
       [] Ev.m = "exit" -> ClientExit
       [] Ev.m = "files" -> FilesChanged(Ev.p.roots)
       [] OTHER -> UNCHANGED svars

Res ==
  /\ IsEv("res") /\ Step /\ PrintT(<<"AT", l>>)
  /\ IF Ev.id \in DOMAIN pend
     THEN Report(Aspects(pend[Ev.id], Ev.r)) /\ ServerResponse(Ev.id, Ev.r)
     ELSE Report({<<"answers", FALSE>>}) /\ UNCHANGED svars

Diag ==
  /\ IsEv("diag") /\ Step /\ PrintT(<<"AT", l>>)
  /\ Report(DiagAspects(Ev.u, Ev.v, Ev.diags))
  /\ IF NextDiag(Ev.u) # {} THEN ServerDiags(Ev.u) ELSE UNCHANGED svars

Dot ==
  /\ IsEv("dot") /\ Step /\ PrintT(<<"AT", l>>)
  /\ LET C == DotMatches(Ev.title, Ev.edges)
         N == Unshown(DOMAIN Commands)
     IN IF Unshown(C) # {}
        THEN Report({}) /\ ServerShowDot(Ev.sid, FirstIn(IF Unshown(C) \cap DOMAIN pend # {} THEN Unshown(C) \cap DOMAIN pend
                                                  ELSE Unshown(C)), C)
        ELSE /\ Report({<<"cfg", FALSE>>})
             /\ IF N # {} THEN ServerShowDot(Ev.sid, FirstIn(N), {FirstIn(N)}) ELSE UNCHANGED svars

Reply ==
  /\ IsEv("reply") /\ Step /\ bad' = bad
  /\ IF Ev.sid \in DOMAIN dots THEN ClientReply(Ev.sid, Ev.ok) ELSE UNCHANGED svars

\* The server crashed or does not answer any more
Dead == IsEv("dead") /\ Step /\ Report({<<"alive", FALSE>>}) /\ UNCHANGED svars

\* The server process ended, as it was asked to
Ended == IsEv("ended") /\ Step /\ Report({<<"lifecycle", phase = "exited">>}) /\ UNCHANGED svars

\* A message of the server which no specification foresees
Odd == IsEv("odd") /\ Step /\ Report({<<"answers", FALSE>>}) /\ UNCHANGED svars

End ==
  /\ IsEv("end") /\ Step
  /\ Report({<<"answers", pend = Empty>>, <<"publish", diagq = <<>> >>})
  /\ UNCHANGED svars

Finished ==
  /\ l = Len(Trace) + 1 /\ l' = l + 1
  /\ PrintT(<<"DONE", Len(Trace), Len(bad)>>)
  /\ UNCHANGED <<svars, bad>>

TraceNext == Boot \/ Req \/ Ntf \/ Res \/ Diag \/ Dot \/ Reply \/ Dead \/ Ended \/ Odd \/ End \/ Finished

TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceView == l
===============================================================================
