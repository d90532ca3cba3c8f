-------------------------------- MODULE GenLife -------------------------------
(***************************************************************************)
(* All sequences of at most MaxLen life-cycle relevant messages of a       *)
(* client (which waits for each answer), with the answer which Server.tla  *)
(* demands in each phase.  Every maximal sequence is printed for replay on *)
(* the real server.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

NumFrom[s \in STRING, i \in Nat, acc \in Nat] ==
  IF i > Len(s) THEN acc
  ELSE NumFrom[s, i + 1, acc * 10 + (CHOOSE n \in 0..9 : ToString(n) = SubSeq(s, i, i))]
MaxLen == NumFrom[IOEnv.MAXLEN, 1, 0]

\* full / none: initialize requests of a client which does or does not resolve actions lazily
Ops == {"init-full", "init-none", "initialized", "text", "query", "command", "unknown", "oddnote",
        "shutdown", "exit"}

VARIABLES w, phase, lazy, stored, answers
vars == <<w, phase, lazy, stored, answers>>

Init == w = <<>> /\ phase = "uninit" /\ lazy = "no" /\ stored = FALSE /\ answers = <<>>

Answer(op) ==
  IF op \in {"initialized", "text", "oddnote", "exit"} THEN "none"
  ELSE IF phase = "uninit" /\ op \notin {"init-full", "init-none"} THEN "-32002"
  ELSE IF phase = "shutdown" THEN "-32600"
  ELSE IF op \in {"init-full", "init-none"} THEN (IF phase = "uninit" THEN "caps" ELSE "-32600")
  ELSE IF op = "unknown" THEN "-32601"
  ELSE IF op = "command" THEN (IF stored THEN "shown" ELSE "-32602")
  ELSE IF op = "query" THEN (IF stored THEN "result" ELSE "nothing")
  ELSE "null"

Do(op) ==
  /\ phase # "exited" /\ Len(w) < MaxLen
  /\ w' = Append(w, op)
  /\ answers' = Append(answers, Answer(op))
  /\ phase' = IF op = "exit" THEN "exited"
              ELSE IF op \in {"init-full", "init-none"} /\ phase = "uninit" THEN "ready"
              ELSE IF op = "shutdown" /\ phase = "ready" THEN "shutdown" ELSE phase
  /\ lazy' = IF op \in {"init-full", "init-none"} /\ phase = "uninit" THEN op ELSE lazy
  /\ stored' = (stored \/ (op = "text" /\ phase = "ready"))
  /\ (Len(w') = MaxLen \/ op = "exit") => PrintT("SEQ " \o ToJson(w'))

Next == \E op \in Ops : Do(op)

\* Phases only ever move forward
Rank == [uninit |-> 0, ready |-> 1, shutdown |-> 2, exited |-> 3]
Forward == [][Rank[phase'] >= Rank[phase]]_vars
\* Only one initialize request succeeds, nothing is answered positively outside of "ready"
OneInit == \A i, j \in 1..Len(answers) : answers[i] = "caps" /\ answers[j] = "caps" => i = j
NoneBefore == \A i \in 1..Len(answers) :
  answers[i] \in {"result", "nothing", "null", "shown", "-32601", "-32602"} =>
    \E j \in 1..(i - 1) : answers[j] = "caps"
NoneAfter == \A i, j \in 1..Len(answers) :
  (w[i] = "shutdown" /\ answers[i] = "null" /\ i < j) => answers[j] \in {"none", "-32600"}
===============================================================================
