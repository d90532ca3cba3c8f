-------------------------------- MODULE Server --------------------------------
(***************************************************************************)
(* A session between an LSP client and the Hyper IR language server.       *)
(*                                                                         *)
(* One action per message.  A request is *linearised when it is sent*: its *)
(* answer is determined by the documents, the workspace roots and the      *)
(* capabilities at that point, no matter what is sent before the answer    *)
(* arrives.  (ServerLoop.tla models the server's event loop and shows that *)
(* it implements this.)                                                    *)
(*                                                                         *)
(*   phase   uninit -> ready -> shutdown -> exited                         *)
(*   lazy    the client resolves the edits of code actions lazily          *)
(*   roots   workspace roots                                               *)
(*   store   key -> [d: analysed document, json]; the texts in use          *)
(*   docs    URI -> [k: key of the current text, open, v]                  *)
(*   pend    id -> request which has not been answered yet                 *)
(*   diagq   diagnostics which have not been published yet, oldest first   *)
(*   dots    id -> command whose graph the client has to acknowledge       *)
(*   acts    handle -> code action which the client has received           *)
(*   late    cancelled commands whose graph may still be shown             *)
(***************************************************************************)
EXTENDS HirFeatures

VARIABLES phase, lazy, roots, store, docs, pend, diagq, dots, acts, late
svars == <<phase, lazy, roots, store, docs, pend, diagq, dots, acts, late>>

Empty == <<>>   \* the function with an empty domain

ServerInit ==
  /\ phase = "uninit" /\ lazy = FALSE /\ roots = <<>>
  /\ store = Empty /\ docs = Empty /\ pend = Empty /\ diagq = <<>> /\ dots = Empty /\ acts = Empty
  /\ late = Empty

Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

\* --- the client sends ----------------------------------------------------------------
NotInitialized == 0 - 32002
InvalidRequest == 0 - 32600
MethodNotFound == 0 - 32601
InvalidParams  == 0 - 32602
InternalError  == 0 - 32603
Cancelled      == 0 - 32800

Known(u) == u \in DOMAIN docs
\* "known", "unknown", or "any" for a document which the client has closed
DocState(u) == IF ~Known(u) THEN "unknown" ELSE IF docs[u].open THEN "known" ELSE "any"

\* The state in which a request is answered
Snapshot(m, p) ==
  LET u == IF "u" \in DOMAIN p THEN p.u ELSE "" IN
  [m |-> m, p |-> p, phase |-> phase, lazy |-> lazy, roots |-> roots,
   doc |-> DocState(u), k |-> IF Known(u) THEN docs[u].k ELSE 0,
   all |-> IF m = "resolve" THEN docs ELSE Empty, cancelled |-> FALSE, shown |-> FALSE, sids |-> {}, replies |-> {}]

ClientRequest(id, m, p) ==
  /\ id \notin DOMAIN pend
  /\ pend' = pend @@ (id :> Snapshot(m, p))
  /\ IF m = "initialize" /\ phase = "uninit"
     THEN phase' = "ready" /\ lazy' = p.lazy /\ roots' = p.roots
     ELSE IF m = "shutdown" /\ phase = "ready"
     THEN phase' = "shutdown" /\ UNCHANGED <<lazy, roots>>
     ELSE UNCHANGED <<phase, lazy, roots>>
  /\ UNCHANGED <<store, docs, diagq, dots, acts, late>>

\* The texts which something still refers to
LiveKeys ==
  {docs[u].k : u \in DOMAIN docs}
    \union {pend[i].k : i \in DOMAIN pend} \union {late[i].k : i \in DOMAIN late}
    \union UNION {{pend[i].all[u].k : u \in DOMAIN pend[i].all} : i \in DOMAIN pend}
    \union {diagq[i].k : i \in 1..Len(diagq)}
FreshKey == CHOOSE k \in 1..(Cardinality(DOMAIN store) + 1) : k \notin DOMAIN store
Stored(k, e) == (k :> e) @@ [x \in DOMAIN store \cap LiveKeys |-> store[x]]

\* A new text for a document, by opening or changing it
ClientText(u, v, text, json) ==
  IF phase = "ready"
  THEN LET k == FreshKey IN
       /\ store' = Stored(k, [d |-> Analyse(text), json |-> json])
       /\ docs' = (u :> [k |-> k, open |-> TRUE, v |-> v]) @@ docs
       /\ diagq' = Append(diagq, [u |-> u, v |-> v, k |-> k])
       /\ UNCHANGED <<phase, lazy, roots, pend, dots, acts, late>>
  ELSE UNCHANGED svars

\* A text beyond this specification (e.g., with characters which it does not classify): answers
\* must still arrive, but are not constrained
ClientOpaqueText(u, v) ==
  IF phase = "ready"
  THEN /\ docs' = (u :> [k |-> 0, open |-> FALSE, v |-> v]) @@ docs
       /\ diagq' = Append(diagq, [u |-> u, v |-> v, k |-> 0])
       /\ UNCHANGED <<store, phase, lazy, roots, pend, dots, acts, late>>
  ELSE UNCHANGED svars

ClientClose(u) ==
  /\ docs' = IF phase = "ready" /\ Known(u) THEN [docs EXCEPT ![u].open = FALSE] ELSE docs
  /\ UNCHANGED <<phase, lazy, roots, store, pend, diagq, dots, acts, late>>

ClientCancel(id) ==
  /\ pend' = IF id \in DOMAIN pend THEN [pend EXCEPT ![id].cancelled = TRUE] ELSE pend
  /\ UNCHANGED <<phase, lazy, roots, store, docs, diagq, dots, acts, late>>

\* The environment: files appear or vanish in the workspace, while no request is pending
FilesChanged(rs) ==
  /\ roots' = IF phase = "uninit" THEN roots ELSE rs
  /\ UNCHANGED <<phase, lazy, store, docs, pend, diagq, dots, acts, late>>

ClientExit ==
  /\ phase' = "exited"
  /\ UNCHANGED <<lazy, roots, store, docs, pend, diagq, dots, acts, late>>

\* The client acknowledges a graph, or reports that it failed to show it.  (The graphs of equal
\* commands cannot be told apart, so that each of them may be the one which is acknowledged.)
ClientReply(sid, ok) ==
  /\ sid \in DOMAIN dots
  /\ dots' = Without(dots, sid)
  /\ pend' = [id \in DOMAIN pend |->
                IF id \in dots[sid]
                THEN [pend[id] EXCEPT !.replies = @ \union {ok}] ELSE pend[id]]
  /\ UNCHANGED <<phase, lazy, roots, store, docs, diagq, acts, late>>

\* --- the server sends ------------------------------------------------------------------
\* r = [err, nul, v]: err = 0 and the normalised result v (nul: it is null), or an error code
IsErr(r, code) == r.err = code
IsNull(r) == r.err = 0 /\ r.nul

\* a list without duplicates which consists of exactly the elements of S
ListOf(q, S) == Len(q) = Cardinality(S) /\ RangeOf(q) = S
OkList(r, S) == r.err = 0 /\ (IF r.nul THEN S = {} ELSE ListOf(r.v, S))
\* (duplicates are tolerated)
OkListDup(r, S) == r.err = 0 /\ (IF r.nul THEN S = {} ELSE RangeOf(r.v) = S)

\* Hints which depend on an annotation whose JSON value the environment did not classify
UnknownJson(e) ==
  \E x \in DbgRefs(e.d) : LET v == DbgValue(e.d, x.t) IN v # "" /\ v \notin DOMAIN e.json
IsBt(h) == h.parts # <<>> /\ h.parts[Len(h.parts)].value = "Full backtrace"
IsIncoming(h) == h.parts # <<>> /\ h.parts[1].value = "incoming: "

\* The hints in a range: all of those in it, and none which does not exist (hints outside of the
\* range are harmless)
Before(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
HintsOf(q, S, rng) ==
  /\ Len(q) = Cardinality(RangeOf(q))
  /\ RangeOf(q) \subseteq S
  /\ {h \in S : Before(<<rng[1], rng[2]>>, h.p) /\ Before(h.p, <<rng[3], rng[4]>>)} \subseteq RangeOf(q)

FuncOf(q) == IF "f" \in DOMAIN q.p THEN q.p.f ELSE ""

\* The aspects of an answer: a set of <<aspect, holds>>
DocAspects(q, r) ==
  LET e == store[q.k]
      d == e.d
      u == q.p.u
      p == q.p
  IN
  CASE q.m = "tokens" -> {<<"tokens", r.err = 0 /\ r.v = SemTokens(d)>>}
    [] q.m = "definition" ->
         LET X == Definition(d, u, q.roots, p.line, p.ch)
             L == {x \in X : x.u = u}
         IN {<<"definition", r.err = 0 /\ IF r.nul THEN L = {}
                  ELSE ListOf(SelectSeq(r.v, LAMBDA x : x.u = u), L)>>,
             <<"external", r.err = 0 /\ IF r.nul THEN X = {} ELSE RangeOf(r.v) = X>>,
             <<"foreign", r.err = 0 /\ IF r.nul THEN TRUE ELSE RangeOf(r.v) \subseteq X>>}
    [] q.m = "declaration" ->
         {<<"declaration", OkList(r, Declaration(d, u, p.line, p.ch))>>}
    [] q.m = "references" -> {<<"references", OkList(r, References(d, u, p.line, p.ch))>>}
    [] q.m = "prepareRename" ->
         {<<"prepare", r.err = 0 /\ RangeOf(r.v)
                                      = PrepareRename(d, p.line, p.ch)>>}
    [] q.m = "rename" ->
         LET x == Rename(d, u, p.line, p.ch, p.name)
             a == IF At(p.name, 1) \in {"+", "-"} THEN "shift" ELSE "rename"
         IN {<<a, r.err = x.err /\ (r.err = 0 => ListOf(r.v, x.edits))>>}
    [] q.m = "codeAction" ->
         LET S == CodeActionSym(d, p.range) IN
         {<<"action",
            /\ r.err = 0
            /\ IF r.nul THEN S = {}
               ELSE /\ Len(r.v) = Cardinality(S)
                    /\ \A o \in S :
                         /\ r.v[1].title = ActionTitle(o.kind)
                         /\ IF q.lazy THEN ~r.v[1].hasEdit
                            ELSE /\ r.v[1].hasEdit
                                 /\ ListOf(r.v[1].edits,
                                           ActionEdits(d, u, [kind |-> o.kind, fb |-> o.fb,
                                                              nr |-> Numbered(o.name).nr]))>>}
    [] q.m = "symbols" -> {<<"outline", OkList(r, DocSymbols(d))>>}
    [] q.m = "folding" -> {<<"folding", OkList(r, Folding(d))>>}
    [] q.m = "lens" -> {<<"lens", OkList(r, CodeLenses(d, u))>>}
    [] q.m = "hints" ->
         LET H == IF r.err = 0 /\ ~r.nul THEN r.v ELSE <<>> IN
         {<<"incoming", r.err = 0 /\ HintsOf(SelectSeq(H, IsIncoming), IncomingHints(d, u), p.range)>>,
          <<"endhints", r.err = 0 /\ HintsOf(SelectSeq(H, LAMBDA h : ~IsIncoming(h) /\ ~IsBt(h)),
                                             EndHints(d, u), p.range)>>,
          <<"backtrace", r.err = 0 /\ (UnknownJson(e) \/
                HintsOf(SelectSeq(H, IsBt), BacktraceHints(d, q.roots, e.json), p.range))>>}

DocMethods == {"tokens", "definition", "declaration", "references", "prepareRename", "rename",
               "codeAction", "symbols", "folding", "lens", "hints"}

\* Answers about documents which the server does not know
UnknownAspects(q, r) ==
  {<<"unknown", IF q.m \in {"rename", "codeAction"} THEN IsErr(r, InvalidParams)
                ELSE OkListDup(r, {})>>}

\* What the server offers
CapAspects(q, r) ==
  {<<"caps",
     /\ r.err = 0
     /\ r.v.sync = 1
     /\ r.v.enc = "utf-16"
     /\ {"tokens", "symbols", "definition", "declaration", "references", "folding", "hints",
         "lens", "rename", "prepareRename", "codeAction"} = RangeOf(r.v.features)
     /\ r.v.resolve = q.p.lazy
     /\ r.v.commands = <<"visualize-cfg">>
     /\ {"comment", "type", "variable", "string", "number", "keyword", "modifier"}
           \subseteq RangeOf(r.v.legend)>>}

\* The command to visualize the control flow
CommandValid(q) ==
  q.p.cmd = "visualize-cfg" /\ q.p.wf /\ q.doc = "known" /\ CfgBody(store[q.k].d, q.p.f) # 0

CommandAspects(q, r) ==
  IF q.doc = "any" THEN {}
  ELSE IF ~CommandValid(q) THEN {<<"command", IsErr(r, InvalidParams)>>}
  ELSE {<<"command", \/ TRUE \in q.replies /\ IsNull(r)
                     \/ FALSE \in q.replies /\ IsErr(r, InternalError)>>}

\* Resolving a code action, against the current text; it is rejected exactly if its function is gone
ResolveAspects(q, r) ==
  LET act == q.p.act IN
  IF act \notin DOMAIN acts THEN {<<"resolve", IsErr(r, InvalidParams)>>}
  ELSE LET x == acts[act]
           e == q.all[x.u]
       IN IF x.kind = "any" \/ ~e.open THEN {}
          ELSE LET d == store[e.k].d
                   E == ActionEdits(d, x.u, x)
                   gone == x.fb > Len(d.fbs)
               IN {<<"resolve",
                     IF r.err = 0
                     THEN /\ ~gone /\ r.v.hasEdit /\ ListOf(r.v.edits, E)
                          /\ r.v.title = x.title
                     ELSE gone>>}

Aspects(q, r) ==
  CASE q.m = "unknownMethod" ->
         {<<"lifecycle",
            \/ IsErr(r, MethodNotFound)
            \/ q.phase = "uninit" /\ IsErr(r, NotInitialized)
            \/ q.phase \in {"shutdown", "exited"} /\ IsErr(r, InvalidRequest)
            \/ q.cancelled /\ IsErr(r, Cancelled)>>}
    [] q.phase = "uninit" /\ q.m # "initialize" -> {<<"lifecycle", IsErr(r, NotInitialized)>>}
    [] q.phase \in {"shutdown", "exited"} -> {<<"lifecycle", IsErr(r, InvalidRequest)>>}
    [] q.cancelled /\ IsErr(r, Cancelled) -> {}
    [] q.m = "initialize" ->
         IF q.phase = "uninit" THEN CapAspects(q, r)
         ELSE {<<"lifecycle", IsErr(r, InvalidRequest)>>}
    [] q.m = "shutdown" -> {<<"lifecycle", IsNull(r)>>}
    [] q.m = "malformed" -> {<<"malformed", r.err # 0>>}
    [] q.m = "command" -> CommandAspects(q, r)
    [] q.m = "resolve" -> ResolveAspects(q, r)
    [] q.m = "badResolve" -> {<<"resolve", r.err # 0>>}
    [] q.m = "oddResolve" -> {}      \* its data is the server's own: any answer will do
    [] q.m \in DocMethods ->
         IF q.doc = "any" THEN {}
         ELSE IF q.doc = "unknown" THEN UnknownAspects(q, r) ELSE DocAspects(q, r)

\* The code action offered by an answer; handle: the client's name for it
OfferedActs(q, r) ==
  IF q.m = "codeAction" /\ q.phase = "ready" /\ r.err = 0 /\ ~r.nul
  THEN [h \in {r.v[i].handle : i \in 1..Len(r.v)} |->
          LET S == IF q.doc = "known" THEN CodeActionSym(store[q.k].d, q.p.range) ELSE {} IN
          IF S = {} THEN [kind |-> "any", u |-> q.p.u]
          ELSE LET o == CHOOSE o \in S : TRUE IN
               [kind |-> o.kind, fb |-> o.fb, nr |-> Numbered(o.name).nr, u |-> q.p.u,
                text |-> store[q.k].d.text, title |-> ActionTitle(o.kind)]]
  ELSE Empty

\* If a command is answered whose graph seemed not to have been shown, then it was mistaken for
\* the one of an equal command
Swapped(id, r) ==
  LET S == {j \in DOMAIN pend : pend[j].shown /\ pend[j].sids \cap pend[id].sids # {}} IN
  IF pend[id].shown \/ IsErr(r, Cancelled) \/ S = {} THEN pend
  ELSE [pend EXCEPT ![FirstIn(S)].shown = FALSE]

\* Exactly one answer per request
ServerResponse(id, r) ==
  /\ id \in DOMAIN pend
  /\ acts' = OfferedActs(pend[id], r) @@ acts
  /\ pend' = Without(Swapped(id, r), id)
  /\ late' = IF /\ pend[id].m = "command" /\ ~pend[id].shown /\ pend[id].phase = "ready"
                /\ pend[id].cancelled /\ IsErr(r, Cancelled)
             THEN late @@ (id :> pend[id]) ELSE late
  /\ UNCHANGED <<phase, lazy, roots, store, docs, diagq, dots>>

\* Published diagnostics: those of the oldest text of the document which have not been
\* published yet
NextDiag(u) == {i \in 1..Len(diagq) : diagq[i].u = u /\ \A j \in 1..(i - 1) : diagq[j].u # u}

ServerDiags(u) ==
  /\ NextDiag(u) # {}
  /\ LET i == CHOOSE i \in NextDiag(u) : TRUE
     IN diagq' = SubSeq(diagq, 1, i - 1) \o SubSeq(diagq, i + 1, Len(diagq))
  /\ UNCHANGED <<phase, lazy, roots, store, docs, pend, dots, acts, late>>

OfKind(diags, k) == SelectSeq(diags, LAMBDA x : x.k = k)

\* Every error is reported once, where it is; nothing else is reported
SyntaxMatches(d, diags) ==
  LET E == SyntaxErrs(d)
      M == MaybeErrs(d)
      q == OfKind(diags, "syntax")
      At1(x) == OffsetOf(d.text, d.ls, x.r[1], x.r[2])
      At2(x) == OffsetOf(d.text, d.ls, x.r[3], x.r[4])
      Fits(x, e) == e.lo <= At1(x) /\ At1(x) <= e.hi
      \* the range is that of the token, or of the character, at which the problem was noticed
      Extent(x) == \/ \E t \in RangeOf(d.toks) : t.a = At1(x) /\ At2(x) = t.b
                   \/ At1(x) <= At2(x) /\ At2(x) <= At1(x) + CharLen(d.text, At1(x))
  IN \* (several runs of skipped tokens may end at the same place)
     /\ Len(q) >= Cardinality(E) /\ Len(q) <= Len(d.errs) + Cardinality(d.soft)
     /\ \A e \in E : \E i \in 1..Len(q) : Fits(q[i], e)
     /\ \A i \in 1..Len(q) : /\ q[i].sev = 1
                             /\ \E e \in E \cup M : Fits(q[i], e)
                             /\ PosOf(d.ls, At1(q[i])) = <<q[i].r[1], q[i].r[2]>>
                             \* (between \r and \n is as good as in front of them)
                             /\ LET p == PosOf(d.ls, At2(q[i])) IN
                                \/ p = <<q[i].r[3], q[i].r[4]>>
                                \/ <<p[1], p[2] + 1>> = <<q[i].r[3], q[i].r[4]>> /\ At(d.text, At2(q[i])) = "\r"
                             /\ Extent(q[i])

Subset(S, k) == {x \in S : x.k = k}

DiagAspects(u, v, diags) ==
  IF NextDiag(u) = {} THEN {<<"publish", FALSE>>}
  ELSE LET x == diagq[CHOOSE i \in NextDiag(u) : TRUE] IN
    IF x.k = 0 THEN {<<"publish", x.v = v>>} ELSE
    LET d == store[x.k].d IN
    {<<"publish", x.v = v>>,
     <<"syntax", SyntaxMatches(d, diags)>>,
     <<"valid", (OfKind(diags, "syntax") = <<>>) = (SyntaxErrs(d) = {})>>,
     <<"undef", ListOf(OfKind(diags, "undef"), Undefined(d))>>,
     <<"dup", ListOf(OfKind(diags, "dup"), Duplicates(d))>>,
     <<"branch", ListOf(OfKind(diags, "branch"), NoTargets(d))>>}

\* The server asks the client to show a graph: the one of a command whose graph has not been
\* shown yet
Commands == [id \in {i \in DOMAIN pend : pend[i].m = "command"} |-> pend[id]] @@ late
Unshown(C) == {id \in C : ~Commands[id].shown}
DotMatches(title, edges) ==
  {id \in DOMAIN Commands :
     LET q == Commands[id] IN
     /\ q.phase = "ready"
     /\ \/ q.doc = "any"
        \/ /\ CommandValid(q)
           /\ title = "CFG for " \o q.p.f
           /\ ListOf(edges, CfgEdges(store[q.k].d.fbs[CfgBody(store[q.k].d, q.p.f)]))}

ServerShowDot(sid, id, C) ==
  /\ id \in Unshown(DOMAIN Commands)
  /\ pend' = [i \in DOMAIN pend |->
                [pend[i] EXCEPT !.shown = @ \/ i = id,
                                !.sids = IF i \in C THEN @ \union {sid} ELSE @]]
  /\ late' = Without(late, id)
  /\ dots' = dots @@ (sid :> C)
  /\ UNCHANGED <<phase, lazy, roots, store, docs, diagq, acts>>

\* Nothing is left to do for the server
Quiescent == pend = Empty /\ diagq = <<>> /\ dots = Empty
===============================================================================
