----------------------------- MODULE HirBacktrace -----------------------------
(***************************************************************************)
(* Stack frames of debug annotations and references to external files.     *)
(*                                                                         *)
(* A frame is [hasName, name, hasLink, link].  The workspace roots are a   *)
(* sequence of [uri, base, files]: base tells whether paths can be         *)
(* appended to the URI, files maps the relative paths which exist there to *)
(* their percent-encoded form (encoding is part of the environment).       *)
(***************************************************************************)
EXTENDS HirIndex

Contains(s, sub) ==
  \E i \in 1..(Len(s) + 1 - Len(sub)) : SubSeq(s, i, i + Len(sub) - 1) = sub

SplitFrom[s \in STRING, c \in STRING, i \in Nat] ==
  LET j == FindChar[s, i, c] IN
  IF j > Len(s) THEN <<SubSeq(s, i, Len(s))>>
  ELSE <<SubSeq(s, i, j - 1)>> \o SplitFrom[s, c, j + 1]
Split(s, c) == SplitFrom[s, c, 1]

\* unsigned numbers of 32 bits
U32(s) ==
  LET n == Norm(s) IN
  IF Len(s) > 0 /\ AllDigits(s) /\ Len(n) <= 10 /\ Cmp(n, "4294967295") <= 0
  THEN [ok |-> TRUE, n |-> n] ELSE [ok |-> FALSE, n |-> "0"]

\* path:line
PathLine(s) ==
  LET p == Split(s, ":") IN
  IF Len(p) = 2 /\ U32(p[2]).ok THEN [ok |-> TRUE, path |-> p[1], line |-> U32(p[2]).n]
  ELSE [ok |-> FALSE, path |-> "", line |-> "0"]

IntFrom[s \in STRING, i \in Nat, acc \in Nat] ==
  IF i > Len(s) THEN acc ELSE IntFrom[s, i + 1, acc * 10 + DigitVal[At(s, i)]]
ToInt(s) == IntFrom[s, 1, 0]
\* (the traces cap all numbers at 10^9, because TLC's integers have 32 bits)
LineNo(s) == IF Cmp(s, "1000000001") >= 0 THEN 1000000001 ELSE ToInt(s)

JoinSlash[q \in Seq(STRING)] ==
  IF q = <<>> THEN "" ELSE IF Len(q) = 1 THEN q[1] ELSE q[1] \o "/" \o JoinSlash[Tail(q)]
\* "." and ".." refer to the folders of the path; nothing is above the root
FoldersFrom[q \in Seq(STRING), acc \in Seq(STRING)] ==
  IF q = <<>> THEN acc
  ELSE FoldersFrom[Tail(q), IF q[1] = "." THEN acc
                         ELSE IF q[1] = ".." THEN SubSeq(acc, 1, Len(acc) - 1)
                         ELSE Append(acc, q[1])]
NormPath(p) == JoinSlash[FoldersFrom[Split(p, "/"), <<>>]]

\* The URI of the first workspace root's file with this path; "" if there is none
Resolve(roots, path) ==
  LET p == NormPath(path)
      S == {k \in 1..Len(roots) : roots[k].base /\ p \in DOMAIN roots[k].files}
  IN IF S = {} THEN ""
     ELSE LET k == CHOOSE k \in S : \A j \in S : k <= j IN roots[k].uri \o "/" \o roots[k].files[p]

\* --- frames ---------------------------------------------------------------------------
LastSepFrom[s \in STRING, i \in Nat] ==
  IF i < 1 THEN 0 ELSE IF At(s, i) \in {"/", "\\"} THEN i ELSE LastSepFrom[s, i - 1]
ShortPath(s) == SubSeq(s, LastSepFrom[s, Len(s)] + 1, Len(s))

FrameSymbol(f) ==
  IF f.hasName /\ f.name # "" THEN f.name
  ELSE IF f.hasLink THEN ShortPath(f.link) ELSE "<invalid>"
FrameFile(f) == IF f.hasLink THEN PathLine(f.link) ELSE PathLine("")

SafePunct == {".", ",", ":", "+", "-", "=", "/", "*", "<", ">", "_"}
Blank == TLCEval({" ", "\t", "\n", "\r"} \cup Spaces)
SanitizeFrom[s \in STRING, i \in Nat] ==
  IF i > Len(s) THEN ""
  ELSE LET l == CharLen(s, i)
           c == SubSeq(s, i, Min(i + l - 1, Len(s)))
       IN (IF IdentCharLen(s, i) > 0 \/ c \in SafePunct \/ c \in Blank THEN c ELSE CharTab.repl)
          \o SanitizeFrom[s, i + l]
Sanitize(s) == SanitizeFrom[s, 1]

FrameMd(roots, f) ==
  LET sym == "`" \o Sanitize(FrameSymbol(f)) \o "`"
      fl == FrameFile(f)
      uri == Resolve(roots, fl.path)
      where == ShortPath(fl.path) \o ":" \o fl.line
  IN IF ~fl.ok THEN sym
     ELSE IF uri = "" THEN sym \o " @ " \o where
     ELSE sym \o " @ [" \o where \o "](" \o uri \o "#" \o fl.line \o ")"

BacktraceMdFrom(roots, frames) ==
  LET F[k \in Nat] ==
        IF k > Len(frames) THEN ""
        ELSE (IF k = 1 THEN "* " ELSE "\n* ") \o FrameMd(roots, frames[k]) \o F[k + 1]
  IN F[1]

Preferences == <<"Translator::consume", "Translator::produceMaterializedResult",
                 "Translator::drivePipeline", "Translator::deriveValue", "Translator::">>

FirstIn(S) == CHOOSE k \in S : \A j \in S : k <= j

\* The index of the most interesting frame, 0 if there is none: the first one of the most
\* preferred symbol, otherwise the first one outside of the code generator itself
RelevantFrame(frames) ==
  LET has(k) == {j \in 1..Len(frames) : Contains(FrameSymbol(frames[j]), Preferences[k])}
      prefs == {k \in 1..Len(Preferences) : has(k) # {}}
      ext == {j \in 1..Len(frames) :
                /\ FrameFile(frames[j]).ok
                /\ ~Contains(FrameFile(frames[j]).path, "hyper/ir/")
                /\ ~Contains(FrameFile(frames[j]).path, "hyper/codegen")}
  IN IF prefs # {} THEN FirstIn(has(FirstIn(prefs)))
     ELSE IF ext # {} THEN FirstIn(ext) ELSE 0

\* offset behind the first n characters
SkipChars[s \in STRING, i \in Nat, n \in Nat] ==
  IF n = 0 \/ i > Len(s) THEN i ELSE SkipChars[s, i + CharLen(s, i), n - 1]
ShortName(s) ==
  IF SkipChars[s, 1, 47] > Len(s) THEN s
  ELSE SubSeq(s, 1, SkipChars[s, 1, 48] - 1) \o CharTab.ellipsis

Part(value, loc, tip) == [value |-> value, loc |-> loc, tip |-> tip]
NoLoc == <<>>

BacktraceParts(roots, frames) ==
  LET k == RelevantFrame(frames)
      full == Part("Full backtrace", NoLoc, BacktraceMdFrom(roots, frames))
  IN IF k = 0 THEN <<full>>
     ELSE <<Part(ShortName(FrameSymbol(frames[k])), NoLoc, FrameMd(roots, frames[k])),
            Part(", ", NoLoc, ""), full>>
===============================================================================
