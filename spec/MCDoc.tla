--------------------------------- MODULE MCDoc --------------------------------
(***************************************************************************)
(* All documents which consist of at most `max` items of an alphabet (read *)
(* from the file named by the environment variable ALPHABET), each checked *)
(* against HirMeta.  (GenDoc prints them for replay on the real server.)   *)
(***************************************************************************)
EXTENDS HirMeta, IOUtils

Alphabet == JsonDeserialize(IOEnv.ALPHABET)
Items == Alphabet.items
MaxLen == ToInt(IOEnv.MAXLEN)

VARIABLES w, d
mvars == <<w, d>>

RECURSIVE Concat(_)
Concat(q) == IF q = <<>> THEN "" ELSE Items[Head(q)] \o Concat(Tail(q))

Init == w = <<>> /\ d = Analyse("")
Next ==
  /\ Len(w) < MaxLen
  /\ \E i \in 1..Len(Items) : w' = Append(w, i)
  /\ d' = Analyse(Concat(w'))

View == w

InvTokens == TokensSane(d) /\ Covered(d)
InvPositions == PositionsInverse(d) /\ PaddingShifts(d)
InvSymbols == OccsSane(d) /\ BodiesDisjoint(d) /\ UsesResolved(d) /\ NavigationConsistent(d)
InvRename == RenameSafe(d)
InvShift == ShiftSafe(d)
InvFlow == HintsMatchGraph(d) /\ FoldingNested(d)
InvErrors == Compositional(d) /\ Contained(d) /\ AllUnderstood(d)
===============================================================================
