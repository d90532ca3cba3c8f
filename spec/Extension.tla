------------------------------ MODULE Extension -------------------------------
(***************************************************************************)
(* The editor extension, between the language server and the editor.       *)
(*                                                                         *)
(* The state is one record x; an event is a record with its kind in e.     *)
(* Allowed(x, e) tells whether the event may happen in x, and After(x, e)  *)
(* is the state behind it.  Events of the environment (the editor and the  *)
(* server) are always allowed; those of the extension only where they are  *)
(* owed.  `quiet` is the observation that the extension has run out of     *)
(* things to do; it is allowed only if the extension owes nothing.         *)
(*                                                                         *)
(* A request to show a graph (`ask`) goes through these states:            *)
(*    preview -> previewing -> (ok) ack                                    *)
(*                          -> (failed) open -> opening -> (ok) show       *)
(*                 -> showing -> (ok) ack;  a failure of these: nack       *)
(*    complain -> complaining -> finish     (if it carries no graph)       *)
(* where preview, open, show, complain, ack, nack and finish are owed by   *)
(* the extension and previewing, opening, showing wait for the editor.     *)
(* Requests are numbered from 1; calls that belong to none are those of 0. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Preview == "graphviz-interactive-preview.preview.beside"
Method == "hyperir/showDot"

None == [i \in {} |-> 0]
Boot == [phase |-> "off", server |-> "", langs |-> {}, client |-> FALSE, handler |-> FALSE,
         started |-> FALSE, req |-> None, call |-> None, stops |-> 0, halted |-> FALSE]

Put(f, k, v) == [i \in DOMAIN f \cup {k} |-> IF i = k THEN v ELSE f[i]]
Drop(f, k) == [i \in DOMAIN f \ {k} |-> f[i]]
SetOf(q) == {q[i] : i \in 1..Len(q)}

St(x, id) == IF id \in DOMAIN x.req THEN x.req[id].st ELSE "none"
To(x, id, st) == [x EXCEPT !.req = Put(@, id, [x.req[id] EXCEPT !.st = st])]

Owed == {"preview", "open", "show", "complain", "ack", "nack", "finish"}

\* The extension has done all it can do for now
Settled(x) ==
  /\ x.phase = "on" => x.client /\ x.handler /\ x.started
  /\ \A id \in DOMAIN x.req : St(x, id) \notin Owed
  /\ x.phase = "stopping" => x.stops = 1 /\ ~x.halted

\* The program which serves the language
Server(e) == IF e.set THEN e.env ELSE e.dir \o "/hyper-ir-lsp"

EnvEvents == {"activate", "ask", "settle", "deactivate"}

Allowed(x, e) ==
  CASE e.e \in EnvEvents -> TRUE
    [] e.e = "client" -> /\ x.phase = "on" /\ ~x.client
                         /\ e.run = x.server /\ e.debug = x.server /\ e.inherits
                         /\ x.langs \subseteq SetOf(e.langs)
    [] e.e = "handler" -> x.client
    [] e.e = "start" -> x.client /\ ~x.started
    [] e.e = "preview" -> /\ St(x, e.r) = "preview" /\ e.cmd = Preview
                          /\ e.content = x.req[e.r].content /\ e.title = x.req[e.r].title
    [] e.e = "open" -> St(x, e.r) = "open" /\ e.content = x.req[e.r].content
    [] e.e = "show" -> St(x, e.r) = "show" /\ e.doc = x.req[e.r].doc
    [] e.e = "complain" -> St(x, e.r) = "complain"
    [] e.e = "ack" -> \/ St(x, e.id) = "ack" /\ e.ok /\ e.obj
                      \/ St(x, e.id) = "nack" /\ ~e.ok
                      \/ St(x, e.id) \in {"complaining", "finish"}
    [] e.e = "stop" -> x.phase = "stopping" /\ x.stops = 0
    \* the extension has ended when the server has, if there is one
    [] e.e = "deactivated" -> \/ x.phase = "ended"
                              \/ x.phase = "stopping" /\ x.stops = 1 /\ x.halted
    [] e.e = "served" -> e.ok
    [] e.e = "quiet" -> Settled(x)
    [] OTHER -> FALSE

AfterSettle(x, c, ok) ==
  LET id == x.call[c]
      y == [x EXCEPT !.call = Drop(@, c)]
      s == St(x, id)
  IN IF id = 0 THEN [y EXCEPT !.halted = TRUE]
     ELSE IF s = "previewing" THEN To(y, id, IF ok THEN "ack" ELSE "open")
     ELSE IF s = "opening" THEN (IF ok THEN [To(y, id, "show") EXCEPT !.req[id].doc = c] ELSE To(y, id, "nack"))
     ELSE IF s = "showing" THEN To(y, id, IF ok THEN "ack" ELSE "nack")
     ELSE IF s = "complaining" THEN To(y, id, "finish")
     ELSE y

Called(x, e, st) == [To(x, e.r, st) EXCEPT !.call = Put(@, e.c, e.r)]

After(x, e) ==
  CASE e.e = "activate" -> [x EXCEPT !.phase = "on", !.server = Server(e), !.langs = SetOf(e.langs)]
    [] e.e = "client" -> [x EXCEPT !.client = TRUE]
    [] e.e = "handler" -> [x EXCEPT !.handler = @ \/ e.m = Method]
    [] e.e = "start" -> [x EXCEPT !.started = TRUE]
    [] e.e = "ask" -> [x EXCEPT !.req = Put(@, e.id, [st |-> IF e.valid THEN "preview" ELSE "complain",
                                                      content |-> e.content, title |-> e.title, doc |-> 0])]
    [] e.e = "preview" -> Called(x, e, "previewing")
    [] e.e = "open" -> Called(x, e, "opening")
    [] e.e = "show" -> Called(x, e, "showing")
    [] e.e = "complain" -> Called(x, e, "complaining")
    [] e.e = "settle" -> AfterSettle(x, e.c, e.ok)
    [] e.e = "ack" -> To(x, e.id, IF e.ok THEN "acked" ELSE "nacked")
    [] e.e = "deactivate" -> [x EXCEPT !.phase = IF x.client THEN "stopping" ELSE "ended"]
    [] e.e = "stop" -> [x EXCEPT !.stops = @ + 1, !.call = Put(@, e.c, e.r)]
    [] e.e = "deactivated" -> [x EXCEPT !.phase = "over"]
    [] OTHER -> x
===============================================================================
