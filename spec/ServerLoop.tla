------------------------------ MODULE ServerLoop ------------------------------
(***************************************************************************)
(* The event loop of the server (tower-lsp on top of tokio), with the text *)
(* of a document abstracted to a number.                                   *)
(*                                                                         *)
(*  - A reader takes the client's messages in order.  Replies to the       *)
(*    server's own requests go to the task which waits for them; all other *)
(*    messages are queued (at most QCap of them).                          *)
(*  - At most Slots handlers run at a time; they start in order, and run   *)
(*    until they finish or wait for the client.                            *)
(*  - Texts are stored, and their diagnostics published, by the handler of *)
(*    the notification; queries read the stored text.                      *)
(*  - A command shows a graph: a task of its own asks the client, and the  *)
(*    command is answered when the client has replied.                     *)
(*  - A cancelled request is answered with an error.                       *)
(*  - After `shutdown` requests are refused and texts ignored.  What was   *)
(*    read before is still worked off, and graphs are still acknowledged.  *)
(*                                                                         *)
(* What is checked: Linearised (every answer and every publication is the  *)
(* one of Server.tla, where a request is linearised when it is sent),      *)
(* AtMostOnce, NoLoss, Live and Responsive.                                *)
(*                                                                         *)
(* HoldLock and Detached describe two mistakes which the implementation    *)
(* once made: keeping the document locked while waiting for the client,    *)
(* and abandoning the wait for a reply if the command is cancelled.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Docs,      \* document URIs
          Texts,     \* 1..n
          Slots,     \* concurrency
          QCap,      \* capacity of the queue
          MaxSend,   \* bound on the number of messages of the client
          MaxDots,   \* bound on the number of commands which wait for the client
          Kinds,     \* the kinds of messages which the client sends
          HoldLock, Detached

VARIABLES
  inq,      \* from the client to the server
  queue,    \* handlers which have not started yet
  run,      \* running handlers which wait for the client
  tasks,    \* graphs which have not been sent to the client yet
  doc,      \* the texts the server has stored, 0: none
  waiting,  \* sid -> id of the command which waits for the reply
  outq,     \* from the server to the client
  crashed,
  down,     \* the server has read `shutdown`
  nsent,    \* the client: number of messages so far,
  cdown,    \* it has sent `shutdown`,
  cdoc,     \* the texts it has sent,
  expect,   \* id -> the answer it expects
  pubs,     \* document -> the texts whose diagnostics have to be published
  got,      \* id -> sequence of answers it got
  todo      \* sids which it has not replied to

cvars == <<nsent, cdown, cdoc, expect, pubs, got, todo>>
lvars == <<inq, queue, run, tasks, doc, waiting, outq, crashed, down>>
vars == <<lvars, cvars>>

None == <<>>
Unknown == 0     \* answers are numbers: that of a text, or one of these
Cancelled == 100
Shown == 101
Refused == 102
Down == 103

LoopInit ==
  /\ inq = <<>> /\ queue = <<>> /\ run = {} /\ tasks = {} /\ waiting = None /\ outq = <<>> /\ crashed = FALSE
  /\ doc = [u \in Docs |-> 0]
  /\ down = FALSE /\ cdown = FALSE
  /\ nsent = 0 /\ cdoc = [u \in Docs |-> 0] /\ expect = None /\ got = None /\ todo = {}
  /\ pubs = [u \in Docs |-> <<>>]

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* --- the client ---------------------------------------------------------------------------
Msg(k, u, t, id) == [k |-> k, u |-> u, t |-> t, id |-> id]

Open == {id \in DOMAIN expect : got[id] = <<>>}
PendingCmds == {id \in Open : expect[id].k = "cmd"}

\* the answer which is linearised when the request is sent
Answer(u) == IF cdown THEN Refused ELSE IF cdoc[u] = 0 THEN Unknown ELSE cdoc[u]

Send(m) == inq' = Append(inq, m) /\ nsent' = nsent + 1

CText(u, t) ==
  /\ "text" \in Kinds /\ nsent < MaxSend
  /\ Send(Msg("text", u, t, 0))
  /\ cdoc' = [cdoc EXCEPT ![u] = t]
  /\ pubs' = [pubs EXCEPT ![u] = IF cdown THEN @ ELSE Append(@, t)]
  /\ UNCHANGED <<queue, run, tasks, doc, waiting, outq, crashed, down, cdown, expect, got, todo>>

CRequest(k, u) ==
  /\ k \in Kinds /\ nsent < MaxSend
  /\ k = "cmd" => Cardinality(PendingCmds) < MaxDots
  /\ LET id == nsent + 1 IN
     /\ Send(Msg(k, u, 0, id))
     /\ expect' = expect @@ (id :> [k |-> k, a |-> Answer(u), cancelled |-> FALSE])
     /\ got' = got @@ (id :> <<>>)
  /\ UNCHANGED <<queue, run, tasks, doc, waiting, outq, crashed, down, cdown, cdoc, pubs, todo>>

\* (sent once)
CDown ==
  /\ "down" \in Kinds /\ nsent < MaxSend /\ ~cdown
  /\ LET id == nsent + 1 IN
     /\ Send(Msg("down", "", 0, id))
     /\ expect' = expect @@ (id :> [k |-> "down", a |-> Down, cancelled |-> FALSE])
     /\ got' = got @@ (id :> <<>>)
  /\ cdown' = TRUE
  /\ UNCHANGED <<queue, run, tasks, doc, waiting, outq, crashed, down, cdoc, pubs, todo>>

CCancel(id) ==
  /\ "cancel" \in Kinds /\ nsent < MaxSend /\ id \in Open /\ ~expect[id].cancelled
  /\ Send(Msg("cancel", "", 0, id))
  /\ expect' = [expect EXCEPT ![id].cancelled = TRUE]
  /\ UNCHANGED <<queue, run, tasks, doc, waiting, outq, crashed, down, cdown, cdoc, pubs, got, todo>>

CReply(sid) ==
  /\ sid \in todo
  /\ inq' = Append(inq, Msg("reply", "", 0, sid))
  /\ todo' = todo \ {sid}
  /\ UNCHANGED <<queue, run, tasks, doc, waiting, outq, crashed, down, cdown, nsent, cdoc, expect, pubs, got>>

\* The client receives the next message of the server
CReceive ==
  /\ outq # <<>>
  /\ outq' = Tail(outq)
  /\ LET m == Head(outq) IN
     CASE m.k = "answer" ->
            /\ got' = [got EXCEPT ![m.id] = Append(@, m.a)]
            /\ UNCHANGED <<nsent, cdoc, expect, pubs, todo>>
       [] m.k = "diag" ->
            \* (an unexpected publication is remembered as a failure)
            /\ pubs' = [pubs EXCEPT ![m.u] =
                          IF @ # <<>> /\ Head(@) = m.a THEN Tail(@) ELSE <<0>> \o @]
            /\ UNCHANGED <<nsent, cdoc, expect, got, todo>>
       [] m.k = "show" ->
            /\ todo' = todo \cup {m.id}
            /\ UNCHANGED <<nsent, cdoc, expect, pubs, got>>
  /\ UNCHANGED <<inq, queue, run, tasks, doc, waiting, crashed, down, cdown>>

\* --- the server ----------------------------------------------------------------------------
Out(k, id, u, a) == [k |-> k, id |-> id, u |-> u, a |-> a]

\* A handler which tries to store a text while the document is locked blocks the only thread
Locked(u) == HoldLock /\ \E h \in run : h.u = u
Blocked == /\ queue # <<>> /\ Cardinality(run) < Slots
           /\ Head(queue).k = "text" /\ Locked(Head(queue).u)
Able == ~crashed /\ ~Blocked

Read ==
  /\ Able /\ inq # <<>>
  /\ LET m == Head(inq) IN
     IF m.k = "reply"
     THEN /\ inq' = Tail(inq)
          /\ UNCHANGED <<queue, doc>>
          /\ IF m.id \in DOMAIN waiting
             THEN LET id == waiting[m.id] IN
                  /\ waiting' = Without(waiting, m.id)
                  /\ run' = {h \in run : h.id # id}
                  \* nobody waits any more if the command was cancelled
                  /\ outq' = IF \E h \in run : h.id = id
                             THEN Append(outq, Out("answer", id, "", Shown)) ELSE outq
                  /\ crashed' = (~Detached /\ ~\E h \in run : h.id = id)
             ELSE UNCHANGED <<waiting, run, outq, crashed>>
     ELSE /\ Len(queue) < QCap
          /\ inq' = Tail(inq)
          \* whether it is refused depends on when it is read, not on when it is its turn
          /\ queue' = Append(queue, IF down /\ m.k \in {"text", "query", "cmd", "down"} THEN [m EXCEPT !.k = "refused"] ELSE m)
          /\ UNCHANGED <<run, doc, waiting, outq, crashed>>
  /\ down' = (down \/ Head(inq).k = "down")
  /\ UNCHANGED <<tasks, cvars>>

\* A task asks the client to show a graph
Ask ==
  /\ Able
  /\ \E t \in tasks :
       /\ tasks' = tasks \ {t}
       /\ waiting' = waiting @@ (t.id :> t.id)
       /\ outq' = Append(outq, Out("show", t.id, t.u, t.a))
  /\ UNCHANGED <<inq, queue, run, doc, crashed, down, cvars>>

\* The next handler starts
Start ==
  /\ Able /\ queue # <<>> /\ Cardinality(run) < Slots
  /\ LET m == Head(queue)
         txt == IF m.u \in Docs THEN doc[m.u] ELSE 0
     IN
     /\ queue' = Tail(queue)
     /\ CASE m.k = "text" ->
               /\ doc' = [doc EXCEPT ![m.u] = m.t]
               /\ outq' = Append(outq, Out("diag", 0, m.u, m.t))
               /\ UNCHANGED <<run, tasks>>
          [] m.k = "query" ->
               /\ outq' = Append(outq, Out("answer", m.id, "",
                                           IF txt = 0 THEN Unknown ELSE txt))
               /\ UNCHANGED <<run, doc, tasks>>
          [] m.k = "cmd" /\ txt = 0 ->
               /\ outq' = Append(outq, Out("answer", m.id, "", Unknown))
               /\ UNCHANGED <<run, doc, tasks>>
          [] m.k = "cmd" /\ txt # 0 ->
               /\ run' = run \cup {[id |-> m.id, u |-> m.u]}
               /\ tasks' = tasks \cup {[id |-> m.id, u |-> m.u, a |-> txt]}
               /\ UNCHANGED <<doc, outq>>
          [] m.k = "cancel" ->
               /\ run' = {h \in run : h.id # m.id}
               /\ outq' = IF \E h \in run : h.id = m.id
                          THEN Append(outq, Out("answer", m.id, "", Cancelled)) ELSE outq
               /\ tasks' = IF Detached THEN tasks ELSE {t \in tasks : t.id # m.id}
               /\ UNCHANGED doc
          [] m.k = "down" ->
               /\ outq' = Append(outq, Out("answer", m.id, "", Down))
               /\ UNCHANGED <<run, doc, tasks>>
          [] m.k = "refused" ->
               /\ outq' = IF m.id = 0 THEN outq ELSE Append(outq, Out("answer", m.id, "", Refused))
               /\ UNCHANGED <<run, doc, tasks>>
  /\ UNCHANGED <<inq, waiting, crashed, down, cvars>>

ClientNext ==
  \/ \E u \in Docs, t \in Texts : CText(u, t)
  \/ \E u \in Docs, k \in {"query", "cmd"} : CRequest(k, u)
  \/ CDown
  \/ \E id \in Open : CCancel(id)
  \/ \E sid \in todo : CReply(sid)
  \/ CReceive

LoopNext == ClientNext \/ Read \/ Start \/ Ask

\* --- properties ------------------------------------------------------------------------------
NoCrash == ~crashed

\* Every answer is the one which was determined when the request was sent; every text's
\* diagnostics are published, in order
Linearised ==
  /\ \A id \in DOMAIN got : \A i \in 1..Len(got[id]) :
       LET e == expect[id]
           a == got[id][i]
       IN \/ a = Cancelled /\ e.cancelled
          \/ e.k = "query" /\ a = e.a
          \/ e.k = "down" /\ a = Down
          \/ e.k = "cmd" /\ (IF e.a \in {Unknown, Refused} THEN a = e.a ELSE a = Shown)
  /\ \A i \in 1..Len(outq) :
       LET m == outq[i] IN m.k = "show" => m.a = expect[m.id].a
  /\ \A u \in Docs : pubs[u] = <<>> \/ Head(pubs[u]) # 0

AtMostOnce == \A id \in DOMAIN got : Len(got[id]) <= 1

\* Nothing is forgotten
Idle == inq = <<>> /\ queue = <<>> /\ run = {} /\ tasks = {} /\ outq = <<>> /\ todo = {}
Orderly == down => cdown
NoLoss == (Idle /\ ~crashed) => (Open = {} /\ \A u \in Docs : pubs[u] = <<>>)

\* As long as the client replies and reads, everything gets answered and published
Fair == WF_vars(Read) /\ WF_vars(Start) /\ WF_vars(Ask) /\ WF_vars(CReceive)
LoopSpec == LoopInit /\ [][LoopNext]_vars /\ Fair /\ WF_vars(\E sid \in todo : CReply(sid))
Live == []<>(Open = {} /\ \A u \in Docs : pubs[u] = <<>>)

\* Even if the client never replies, everything else gets answered and published
LazySpec == LoopInit /\ [][LoopNext]_vars /\ Fair
Responsive == []<>((\A id \in Open : expect[id].k = "cmd") /\ \A u \in Docs : pubs[u] = <<>>)
===============================================================================
