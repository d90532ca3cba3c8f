------------------------------- MODULE GenHistory -----------------------------
(***************************************************************************)
(* All edit histories of at most MaxLen steps over some documents and      *)
(* texts, as a client may legally produce them (a document is changed and  *)
(* closed only while it is open).  `cur` is the text which each answer has *)
(* to describe.  Every maximal history is printed for replay.              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Docs, Texts
NumFrom[s \in STRING, i \in Nat, acc \in Nat] ==
  IF i > Len(s) THEN acc
  ELSE NumFrom[s, i + 1, acc * 10 + (CHOOSE n \in 0..9 : ToString(n) = SubSeq(s, i, i))]
MaxLen == NumFrom[IOEnv.MAXLEN, 1, 0]

VARIABLES w,     \* the history so far
          cur,   \* document -> its text, 0: never opened
          isopen,
          published  \* document -> number of texts sent
vars == <<w, cur, isopen, published>>

Init ==
  /\ w = <<>> /\ cur = [u \in Docs |-> 0] /\ isopen = [u \in Docs |-> FALSE]
  /\ published = [u \in Docs |-> 0]

Log(k, u, ts) ==
  /\ Len(w) < MaxLen
  /\ w' = Append(w, [k |-> k, u |-> u, t |-> ts])
  /\ Len(w') = MaxLen => PrintT("SEQ " \o ToJson(w'))

Text(u, t) == cur' = [cur EXCEPT ![u] = t] /\ published' = [published EXCEPT ![u] = @ + 1]

Open(u, t) ==
  /\ ~isopen[u] /\ Log("open", u, <<t>>) /\ Text(u, t) /\ isopen' = [isopen EXCEPT ![u] = TRUE]
Change(u, t) == isopen[u] /\ Log("change", u, <<t>>) /\ Text(u, t) /\ UNCHANGED isopen
\* several changes in one notification: the last one counts
Multi(u, s, t) == isopen[u] /\ s # t /\ Log("change", u, <<s, t>>) /\ Text(u, t) /\ UNCHANGED isopen
NoChange(u) == isopen[u] /\ Log("change", u, <<>>) /\ UNCHANGED <<cur, isopen, published>>
Close(u) ==
  /\ isopen[u] /\ Log("close", u, <<>>)
  /\ isopen' = [isopen EXCEPT ![u] = FALSE] /\ UNCHANGED <<cur, published>>

Next ==
  \E u \in Docs :
    \/ \E t \in Texts : Open(u, t) \/ Change(u, t) \/ \E s \in Texts : Multi(u, s, t)
    \/ NoChange(u) \/ Close(u)

\* The current text of a document is the last text of its last notification with a text:
\* it depends neither on earlier texts nor on other documents
LastText(u) ==
  LET S == {i \in 1..Len(w) : w[i].u = u /\ w[i].t # <<>>} IN
  IF S = {} THEN 0
  ELSE LET i == CHOOSE i \in S : \A j \in S : j <= i IN w[i].t[Len(w[i].t)]
LastWins == \A u \in Docs : cur[u] = LastText(u)
OncePerText == \A u \in Docs :
  published[u] = Cardinality({i \in 1..Len(w) : w[i].u = u /\ w[i].t # <<>>})
===============================================================================
