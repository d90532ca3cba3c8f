-------------------------------- MODULE HirText -------------------------------
(***************************************************************************)
(* Lines and LSP positions.  A position is <<line, character>>, both       *)
(* 0-based, the character counted in UTF-16 code units.  Lines end with    *)
(* \n, \r\n or \r.                                                         *)
(***************************************************************************)
EXTENDS HirParser

\* The offset of the first line break (its last character) at or behind i; Len(s)+1 if there is none
NextBreak[s \in STRING, i \in Nat] ==
  LET e == Min(i + 63, Len(s))
      Break(k) == At(s, k) = "\n" \/ (At(s, k) = "\r" /\ At(s, k + 1) # "\n")
  IN IF \E k \in i..e : Break(k) THEN CHOOSE k \in i..e : Break(k) /\ \A j \in i..(k - 1) : ~Break(j)
     ELSE IF e = Len(s) THEN e + 1 ELSE NextBreak[s, e + 1]

\* The offsets at which a line starts
LineStartsFrom[s \in STRING, i \in Nat] ==
  LET b == NextBreak[s, i] IN IF b > Len(s) THEN <<>> ELSE <<b + 1>> \o LineStartsFrom[s, b + 1]
LineStarts(s) == <<1>> \o LineStartsFrom[s, 1]

\* The index of the last line start <= o
LineIndex(ls, o) ==
  LET Find[lo \in Nat, hi \in Nat] ==
        IF lo = hi THEN lo
        ELSE LET m == (lo + hi + 1) \div 2 IN
             IF ls[m] <= o THEN Find[m, hi] ELSE Find[lo, m - 1]
  IN Find[1, Len(ls)]

\* The LSP position of offset o
PosOf(ls, o) == LET k == LineIndex(ls, o) IN <<k - 1, o - ls[k]>>

\* The LSP range <<start line, start char, end line, end char>> of span [a, b)
RngOf(ls, a, b) == PosOf(ls, a) \o PosOf(ls, b)

\* The offset of the end of line k (1-based), without its line break
LineContentEnd(s, ls, k) ==
  IF k = Len(ls) THEN Len(s) + 1
  ELSE LET e == ls[k + 1] - 1 IN   \* the last character of the line break
       IF At(s, e) = "\n" /\ At(s, e - 1) = "\r" /\ e - 1 >= ls[k] THEN e - 1 ELSE e

\* The offset of an LSP position; 0 if there is no such line.
\* A character behind the end of the line means the end of the line.
OffsetOf(s, ls, line, ch) ==
  IF line + 1 > Len(ls) THEN 0
  ELSE Min(ls[line + 1] + ch, LineContentEnd(s, ls, line + 1))
===============================================================================
