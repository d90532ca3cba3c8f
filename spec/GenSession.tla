------------------------------ MODULE GenSession ------------------------------
(***************************************************************************)
(* Generates behaviours of ServerLoop for replay on the real server: the   *)
(* history is what the client sees, i.e. the order of its own messages and *)
(* of the messages it receives.  Run with -simulate.                       *)
(***************************************************************************)
EXTENDS ServerLoop, Json

VARIABLES hist, emitted
gvars == <<vars, hist, emitted>>

GenInit == LoopInit /\ hist = <<>> /\ emitted = FALSE

Log(k, u, t, id) == hist' = Append(hist, [k |-> k, u |-> u, t |-> t, id |-> id]) /\ UNCHANGED emitted
NoLog == UNCHANGED <<hist, emitted>>

Finished == nsent >= MaxSend /\ Idle

GenNext ==
  \/ \E u \in Docs, t \in Texts : CText(u, t) /\ Log("text", u, t, 0)
  \/ \E u \in Docs, k \in {"query", "cmd"} : CRequest(k, u) /\ Log(k, u, 0, nsent + 1)
  \/ nsent > 11 /\ CDown /\ Log("down", "", 0, nsent + 1)
  \/ \E id \in Open : CCancel(id) /\ Log("cancel", "", 0, id)
  \/ \E sid \in todo : CReply(sid) /\ Log("reply", "", 0, sid)
  \/ outq # <<>> /\ CReceive /\ Log("recv-" \o Head(outq).k, Head(outq).u, 0, Head(outq).id)
  \/ (Read \/ Start \/ Ask) /\ NoLog
  \/ /\ Finished /\ ~emitted /\ emitted' = TRUE
     /\ PrintT("HIST " \o ToJson(hist))
     /\ UNCHANGED <<vars, hist>>

GenSpec == GenInit /\ [][GenNext]_gvars
===============================================================================
