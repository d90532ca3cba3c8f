-------------------------------- MODULE MCExt ---------------------------------
(***************************************************************************)
(* All behaviours of the extension with a few requests, and (GenExt.cfg)   *)
(* the schedules of the environment, for replay on the real extension.     *)
(***************************************************************************)
EXTENDS Extension, Json

CONSTANTS Ids, Gen   \* Gen: the environment waits until the extension has settled, and hist is kept

VARIABLES x, shown, acks, hist, done
vars == <<x, shown, acks, hist, done>>

Init == x = Boot /\ shown = {} /\ acks = None /\ hist = <<>> /\ done = FALSE

\* what each request has had shown: the preview, the document, or the complaint
Note(e) ==
  /\ shown' = IF e.e = "settle" /\ e.ok /\ St(x, x.call[e.c]) \in {"previewing", "showing"} THEN shown \cup {x.call[e.c]}
              ELSE IF e.e = "complain" THEN shown \cup {e.r} ELSE shown
  /\ acks' = IF e.e = "ack" THEN Put(acks, e.id, (IF e.id \in DOMAIN acks THEN acks[e.id] ELSE 0) + 1) ELSE acks

Do(e) == Allowed(x, e) /\ x' = After(x, e) /\ Note(e) /\ UNCHANGED done
Log(k, id, ok) == hist' = IF Gen THEN Append(hist, [k |-> k, id |-> id, ok |-> ok]) ELSE hist
NoLog == UNCHANGED hist
May == Gen => Settled(x)

\* --- the environment
Activate == x.phase = "off" /\ Do([e |-> "activate", set |-> TRUE, env |-> "s", dir |-> "d", langs |-> <<"hir">>]) /\ Log("activate", 0, TRUE)
Ask(id, valid) ==
  /\ x.phase = "on" /\ x.handler /\ x.started /\ id \notin DOMAIN x.req /\ May
  /\ Gen => \A j \in Ids : j < id => j \in DOMAIN x.req
  /\ Do([e |-> "ask", id |-> id, valid |-> valid, content |-> id, title |-> "t"]) /\ Log("ask", id, valid)
Settle(c, ok) ==
  /\ May /\ (x.call[c] = 0 => ok)
  /\ Log("settle", x.call[c], ok) /\ Do([e |-> "settle", c |-> c, ok |-> ok])
Deactivate == x.phase \in {"off", "on"} /\ May /\ Do([e |-> "deactivate"]) /\ Log("deactivate", 0, TRUE)

\* --- the extension
\* each request makes each call at most once
No == [preview |-> 1, open |-> 2, show |-> 3, complain |-> 4, stop |-> 5]
Call(k, id) ==
  LET c == 5 * id + No[k]
      r == IF id = 0 THEN x ELSE x.req[id]
  IN Do(CASE k = "preview" -> [e |-> k, c |-> c, r |-> id, cmd |-> Preview, content |-> r.content, title |-> r.title]
       [] k = "open" -> [e |-> k, c |-> c, r |-> id, content |-> r.content]
       [] k = "show" -> [e |-> k, c |-> c, r |-> id, doc |-> r.doc]
       [] OTHER -> [e |-> k, c |-> c, r |-> id])
Ext ==
  /\ NoLog
  /\ \/ Do([e |-> "client", run |-> "s", debug |-> "s", inherits |-> TRUE, langs |-> <<"hir">>])
     \/ ~x.handler /\ Do([e |-> "handler", m |-> Method])
     \/ Do([e |-> "start"])
     \/ \E id \in DOMAIN x.req : \E k \in {"preview", "open", "show", "complain"} : Call(k, id)
     \/ \E id \in DOMAIN x.req, ok \in BOOLEAN :
          (Gen => (St(x, id) # "complaining" /\ (St(x, id) = "finish" => ok))) /\ Do([e |-> "ack", id |-> id, ok |-> ok, obj |-> ok])
     \/ Call("stop", 0)
     \/ Do([e |-> "deactivated"])

Over == x.phase = "over" /\ DOMAIN x.call = {} /\ Settled(x)
Emit == Gen /\ Over /\ ~done /\ done' = TRUE /\ PrintT("SEQ " \o ToJson(hist)) /\ UNCHANGED <<x, shown, acks, hist>>

Next ==
  \/ Activate \/ Deactivate \/ Ext \/ Emit
  \/ \E id \in Ids, v \in BOOLEAN : Ask(id, v)
  \/ \E c \in DOMAIN x.call, ok \in BOOLEAN : Settle(c, ok)

Fair == /\ WF_vars(Ext) /\ WF_vars(\E c \in DOMAIN x.call, ok \in BOOLEAN : Settle(c, ok))
Spec == Init /\ [][Next]_vars /\ Fair

\* --- properties
AckOnce == \A id \in DOMAIN acks : acks[id] = 1
\* success is reported only for what has been shown
Honest == \A id \in Ids : St(x, id) = "acked" => id \in shown
OneStop == x.stops <= 1 /\ (x.stops = 1 => x.client)
Ended == (x.phase = "over" /\ x.client) => x.halted
OneCall == \A c, d \in DOMAIN x.call : x.call[c] = x.call[d] => c = d
Answered == \A id \in Ids : (St(x, id) # "none") ~> (St(x, id) \in {"acked", "nacked"})
Stops == (x.phase = "stopping") ~> (x.phase = "over")
===============================================================================
