--------------------------------- MODULE GenDoc -------------------------------
(***************************************************************************)
(* Prints all documents over an alphabet with exactly 1..MaxLen items, as  *)
(* sequences of item numbers, for replay on the real server.  (MCDoc       *)
(* checks the specification itself on these documents.)                    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Items == JsonDeserialize(IOEnv.ALPHABET).items
NumFrom[s \in STRING, i \in Nat, acc \in Nat] ==
  IF i > Len(s) THEN acc
  ELSE NumFrom[s, i + 1, acc * 10 + (CHOOSE n \in 0..9 : ToString(n) = SubSeq(s, i, i))]
MaxLen == TLCEval(NumFrom[IOEnv.MAXLEN, 1, 0])
NItems == TLCEval(Len(Items))

VARIABLE w
Init == w = <<>>
Next == /\ Len(w) < MaxLen
        /\ \E i \in 1..NItems : w' = Append(w, i) /\ PrintT("SEQ " \o ToJson(w'))
===============================================================================
