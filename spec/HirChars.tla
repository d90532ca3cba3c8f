------------------------------- MODULE HirChars -------------------------------
(***************************************************************************)
(* Characters.  TLC represents a string as a sequence of UTF-16 code units *)
(* (Len, SubSeq and \o work on strings), which is exactly the unit in      *)
(* which LSP counts columns.  A text is a TLC string; an *offset* is a     *)
(* 1-based index into it; a span is [a, b) with a <= b.                    *)
(*                                                                         *)
(* The classes of the non-ASCII characters which the drivers use are read  *)
(* from chars.json, because TLA+ source text is ASCII.                     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CharTab == JsonDeserialize("chars.json")

RangeOf(s) == TLCEval({s[i] : i \in 1..Len(s)})

Letters == RangeOf(CharTab.letters)       \* alphabetic, one code unit
Digits  == RangeOf(CharTab.digits)        \* 0..9
OtherNumeric == RangeOf(CharTab.numeric)  \* numeric but not a decimal digit (some are letters, too)
AstralLetters == RangeOf(CharTab.astralLetters)  \* two code units
AstralNumeric == RangeOf(CharTab.astralNumeric)
AstralIdent == TLCEval(AstralLetters \cup AstralNumeric)

HexDigits == RangeOf(CharTab.hex)
PunctChars == RangeOf(CharTab.punct)
HighSurrogates == RangeOf(CharTab.highSurrogates)

IdentUnits == TLCEval(Letters \cup Digits \cup OtherNumeric \cup {"_"})
HeadUnits == TLCEval(Letters \cup {"_"})
NumericUnits == TLCEval(Digits \cup OtherNumeric)
Spaces == RangeOf(CharTab.spaces)

At(s, i) == IF i >= 1 /\ i <= Len(s) THEN SubSeq(s, i, i) ELSE ""

\* The length in code units of the character at offset i
CharLen(s, i) == IF At(s, i) \in HighSurrogates THEN 2 ELSE 1

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
===============================================================================
