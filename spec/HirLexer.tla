------------------------------- MODULE HirLexer -------------------------------
(***************************************************************************)
(* The lexical structure of Hyper IR.                                      *)
(*                                                                         *)
(* A token is [k |-> kind, a |-> start, b |-> end, t |-> text].            *)
(* Lex(s) = [toks |-> tokens, errs |-> errors]: characters which do not    *)
(* start a token are skipped; each maximal run of skipped characters is    *)
(* one error [lo, hi] (its report must start at an offset in lo..hi).      *)
(***************************************************************************)
EXTENDS HirChars

FuncModifiers == {"exported", "async", "memberfunc", "noreturn", "nosideeffects", "pure"}
TypeNames == {"void", "int1", "int8", "int16", "int32", "int64", "float32", "float64",
              "data128", "ptr"}

\* The number of code units of the identifier character at i, 0 if there is none
IdentCharLen(s, i) ==
  LET c == At(s, i) IN
  IF c \in IdentUnits THEN 1
  ELSE IF c \in HighSurrogates /\ i < Len(s) /\ SubSeq(s, i, i + 1) \in AstralIdent THEN 2
  ELSE 0

HeadCharLen(s, i) ==
  LET c == At(s, i) IN
  IF c \in HeadUnits THEN 1
  ELSE IF c \in HighSurrogates /\ i < Len(s) /\ SubSeq(s, i, i + 1) \in AstralLetters THEN 2
  ELSE 0

\* (Recursion is written with functions throughout, because TLC evaluates recursive
\* functions in linear time and recursive operators in quadratic time.)
SkipColons[s \in STRING, i \in Nat] == IF At(s, i) = ":" THEN SkipColons[s, i + 1] ELSE i

\* Colons may occur inside of, but not at the end of an identifier
IdentTailEnd[s \in STRING, i \in Nat] ==
  LET l == IdentCharLen(s, i) IN
  IF l > 0 THEN IdentTailEnd[s, i + l]
  ELSE IF At(s, i) # ":" THEN i
  ELSE LET j == SkipColons[s, i]
           m == IdentCharLen(s, j)
       IN IF m > 0 THEN IdentTailEnd[s, j + m] ELSE i

HexEnd[s \in STRING, i \in Nat] == IF At(s, i) \in HexDigits THEN HexEnd[s, i + 1] ELSE i
DigitsEnd[s \in STRING, i \in Nat] == IF At(s, i) \in Digits THEN DigitsEnd[s, i + 1] ELSE i

\* (Long distances are covered in strides, to limit the depth of the recursion.)
BlankEnd[s \in STRING, i \in Nat] ==
  LET e == Min(i + 63, Len(s))
      More(k) == At(s, k) \notin {" ", "\t"}
  IN IF \E k \in i..e : More(k) THEN CHOOSE k \in i..e : More(k) /\ \A j \in i..(k - 1) : ~More(j)
     ELSE IF e = Len(s) THEN e + 1 ELSE BlankEnd[s, e + 1]

\* The first offset >= i at which character c is found; Len(s)+1 if there is none
FindChar[s \in STRING, i \in Nat, c \in STRING] ==
  LET e == Min(i + 63, Len(s)) IN
  IF \E k \in i..e : At(s, k) = c THEN CHOOSE k \in i..e : At(s, k) = c /\ \A j \in i..(k - 1) : At(s, j) # c
  ELSE IF e = Len(s) THEN e + 1 ELSE FindChar[s, e + 1, c]

\* The offset of the line break which ends a comment
CommentEnd(s, i) ==
  LET e == FindChar[s, i, "\n"] IN
  IF e <= Len(s) /\ At(s, e - 1) = "\r" THEN e - 1 ELSE e

NoTok == [k |-> "none", a |-> 0, b |-> 0, t |-> ""]

IdentKind(t) ==
  CASE t = "declare" -> "declare"
    [] t = "define" -> "define"
    [] t \in FuncModifiers -> "mod"
    [] t \in TypeNames -> "type"
    [] OTHER -> "ident"

Tok(s, k, a, b) == [k |-> k, a |-> a, b |-> b, t |-> SubSeq(s, a, b - 1)]

\* The token which starts at offset i, or NoTok
LexAt(s, i) ==
  LET c == At(s, i) IN
  IF c = "#" THEN Tok(s, "comment", i, CommentEnd(s, i))
  ELSE IF c \in Digits THEN
    IF c = "0" /\ At(s, i + 1) = "x" /\ At(s, i + 2) \in HexDigits
    THEN Tok(s, "hex", i, IF At(s, i + 2) = "0" THEN i + 3 ELSE HexEnd[s, i + 2])
    ELSE Tok(s, "num", i, IF c = "0" THEN i + 1 ELSE DigitsEnd[s, i])
  ELSE IF c = "\"" THEN
    LET e == FindChar[s, i + 1, "\""] IN
    IF e <= Len(s) THEN Tok(s, "str", i, e + 1) ELSE NoTok
  ELSE IF c \in PunctChars THEN Tok(s, "punct", i, i + 1)
  ELSE IF c = "@" THEN Tok(s, "global", i, IdentTailEnd[s, i + 1])
  ELSE IF c = "%" THEN Tok(s, "local", i, IdentTailEnd[s, i + 1])
  ELSE IF c = "!" THEN Tok(s, "dbg", i, IdentTailEnd[s, i + 1])
  ELSE IF c = "\n" THEN Tok(s, "nl", i, i + 1)
  ELSE IF c = "\r" /\ At(s, i + 1) = "\n" THEN Tok(s, "nl", i, i + 2)
  ELSE LET h == HeadCharLen(s, i) IN
    IF h = 0 THEN NoTok
    ELSE LET e == IdentTailEnd[s, i + h]
             t == SubSeq(s, i, e - 1)
         IN [k |-> IdentKind(t), a |-> i, b |-> e, t |-> t]

\* How far a failing attempt to read a token at i looks
LexLookahead(s, i) ==
  CASE At(s, i) = "\"" -> Len(s) + 1
    [] At(s, i) = "\r" -> i + 1
    [] OTHER -> i

\* The first offset >= i at which a token starts; Len(s)+1 if there is none
Resync[s \in STRING, i \in Nat] ==
  IF i > Len(s) \/ LexAt(s, i).k # "none" THEN Min(i, Len(s) + 1)
  ELSE Resync[s, i + CharLen(s, i)]

LexFrom[s \in STRING, i0 \in Nat] ==
  LET i == BlankEnd[s, i0] IN
  IF i > Len(s) THEN [toks |-> <<>>, errs |-> <<>>]
  ELSE LET tok == LexAt(s, i) IN
    IF tok.k # "none" THEN
      LET r == LexFrom[s, tok.b] IN [r EXCEPT !.toks = <<tok>> \o @]
    ELSE
      LET r == LexFrom[s, Resync[s, i + CharLen(s, i)]]
      IN [r EXCEPT !.errs = <<[lo |-> i, hi |-> LexLookahead(s, i), opt |-> FALSE]>> \o @]

Lex(s) == LexFrom[s, 1]
===============================================================================
