------------------------------ MODULE HirNumbers ------------------------------
(***************************************************************************)
(* Decimal numbers of arbitrary size as strings of digits (TLC's integers  *)
(* have 32 bits), and the numeric suffix of identifiers.                   *)
(***************************************************************************)
EXTENDS HirText

DigitVal == [c \in Digits |-> CHOOSE v \in 0..9 : ToString(v) = c]

AllDigits(s) == \A i \in 1..Len(s) : At(s, i) \in Digits

NormFrom[s \in STRING, i \in Nat] ==
  IF i >= Len(s) \/ At(s, i) # "0" THEN SubSeq(s, i, Len(s)) ELSE NormFrom[s, i + 1]
\* without leading zeros
Norm(s) == NormFrom[s, 1]

\* lexicographic comparison of equally long digit strings: -1, 0, 1
CmpFrom[x \in STRING, y \in STRING, i \in Nat] ==
  IF i > Len(x) THEN 0
  ELSE LET a == DigitVal[At(x, i)]
           b == DigitVal[At(y, i)]
       IN IF a < b THEN 0 - 1 ELSE IF a > b THEN 1 ELSE CmpFrom[x, y, i + 1]
\* of normalised numbers
Cmp(x, y) == IF Len(x) < Len(y) THEN 0 - 1 ELSE IF Len(x) > Len(y) THEN 1 ELSE CmpFrom[x, y, 1]

DigitFromRight(x, k) == IF k > Len(x) THEN 0 ELSE DigitVal[At(x, Len(x) + 1 - k)]

AddFrom[x \in STRING, y \in STRING, k \in Nat, carry \in Nat] ==
  IF k > Len(x) /\ k > Len(y) THEN IF carry = 0 THEN "" ELSE ToString(carry)
  ELSE LET d == DigitFromRight(x, k) + DigitFromRight(y, k) + carry
       IN AddFrom[x, y, k + 1, d \div 10] \o ToString(d % 10)
Add(x, y) == Norm(AddFrom[x, y, 1, 0])

\* x >= y
SubFrom[x \in STRING, y \in STRING, k \in Nat, borrow \in Nat] ==
  IF k > Len(x) THEN ""
  ELSE LET d == 10 + DigitFromRight(x, k) - DigitFromRight(y, k) - borrow
       IN SubFrom[x, y, k + 1, IF d >= 10 THEN 0 ELSE 1] \o ToString(d % 10)
Sub(x, y) == Norm(SubFrom[x, y, 1, 0])

MaxI64 == "9223372036854775807"
FitsI64(x) == Cmp(x, MaxI64) <= 0

\* |x + sign * y|
AbsShift(x, neg, y) == IF ~neg THEN Add(x, y) ELSE IF Cmp(x, y) >= 0 THEN Sub(x, y) ELSE Sub(y, x)

\* --- numbered identifiers -----------------------------------------------------
StartsNumeric(s) == At(s, 1) \in NumericUnits \/ (Len(s) > 1 /\ SubSeq(s, 1, 2) \in AstralNumeric)

SuffixStart[s \in STRING, i \in Nat] ==
  IF i > 1 /\ At(s, i - 1) \in NumericUnits THEN SuffixStart[s, i - 1]
  ELSE IF i > 2 /\ SubSeq(s, i - 2, i - 1) \in AstralNumeric THEN SuffixStart[s, i - 2] ELSE i

\* [ok, prefix, nr]: `%v12` is number 12 with prefix `%v`
Numbered(name) ==
  LET i == SuffixStart[name, Len(name) + 1]
      d == SubSeq(name, i, Len(name))
  IN IF Len(d) > 0 /\ AllDigits(d) /\ FitsI64(Norm(d))
     THEN [ok |-> TRUE, prefix |-> SubSeq(name, 1, i - 1), nr |-> Norm(d)]
     ELSE [ok |-> FALSE, prefix |-> "", nr |-> ""]

\* A relative number: a sign followed by an integer which may have a sign itself
RelShift(s) ==
  LET neg1 == At(s, 1) = "-"
      signed == At(s, 2) \in {"+", "-"}
      neg2 == At(s, 2) = "-"
      d == SubSeq(s, IF signed THEN 3 ELSE 2, Len(s))
      n == Norm(d)
  IN IF Len(d) > 0 /\ AllDigits(d)
        /\ (FitsI64(n) \/ (neg2 /\ n = "9223372036854775808"))
     THEN [ok |-> TRUE, neg |-> neg1 # neg2, n |-> n]
     ELSE [ok |-> FALSE, neg |-> FALSE, n |-> "0"]
===============================================================================
