-------------------------------- MODULE HirMeta -------------------------------
(***************************************************************************)
(* What has to be true of the specified answers themselves, for every      *)
(* document: the guarantees which a user relies on, stated independently   *)
(* of how the answers are computed.  Checked by MCDoc on all documents     *)
(* over small alphabets.                                                   *)
(***************************************************************************)
EXTENDS HirFeatures

Uri == "file:///m.hir"

\* --- text edits ---------------------------------------------------------------------
EditLess(x, y) == x.r[1] < y.r[1] \/ (x.r[1] = y.r[1] /\ x.r[2] < y.r[2])
RECURSIVE SortEdits(_)
SortEdits(E) ==
  IF E = {} THEN <<>>
  ELSE LET m == CHOOSE x \in E : \A y \in E : x = y \/ EditLess(x, y)
       IN <<m>> \o SortEdits(E \ {m})

\* The text after a set of edits, as an LSP client applies them
ApplyEdits(d, E) ==
  LET q == SortEdits(E)
      F[k \in Nat, from \in Nat] ==
        IF k > Len(q) THEN SubSeq(d.text, from, Len(d.text))
        ELSE LET a == OffsetOf(d.text, d.ls, q[k].r[1], q[k].r[2])
                 b == OffsetOf(d.text, d.ls, q[k].r[3], q[k].r[4])
             IN SubSeq(d.text, from, a - 1) \o q[k].n \o F[k + 1, b]
  IN F[1, 1]

EditsDisjoint(E) ==
  \A x, y \in E : x = y \/ <<x.r[1], x.r[2]>> # <<y.r[1], y.r[2]>>

\* --- tokens (C07) -------------------------------------------------------------------
\* Tokens are in order and do not overlap, and spell what they cover
TokensSane(d) ==
  \A i \in 1..Len(d.toks) :
    /\ d.toks[i].a < d.toks[i].b /\ d.toks[i].b <= Len(d.text) + 1
    /\ d.toks[i].t = SubSeq(d.text, d.toks[i].a, d.toks[i].b - 1)
    /\ i < Len(d.toks) => d.toks[i].b <= d.toks[i + 1].a

\* What no token covers is blank, or was skipped with an error
Covered(d) ==
  LET C == UNION {t.a..(t.b - 1) : t \in RangeOf(d.toks)}
      U == {o \in 1..Len(d.text) : o \notin C /\ At(d.text, o) \notin {" ", "\t"}}
  IN U # {} => Lex(d.text).errs # <<>>

\* --- positions (C18) ------------------------------------------------------------------
\* offsets and positions are inverse to each other, except inside of a line break
InBreak(d, o) == At(d.text, o) = "\n" /\ At(d.text, o - 1) = "\r"
PositionsInverse(d) ==
  \A o \in 1..(Len(d.text) + 1) :
    LET p == PosOf(d.ls, o) IN
    InBreak(d, o) \/ OffsetOf(d.text, d.ls, p[1], p[2]) = o

\* Empty lines in front of a text shift everything and change nothing else
Down(r, n) == IF r = <<>> THEN r ELSE <<r[1] + n, r[2], r[3] + n, r[4]>>
PaddingShifts(d) ==
  LET e == Analyse("\n\n" \o d.text)
      S(x) == [x EXCEPT !.r = Down(@, 2), !.rel = Down(@, 2)]
  IN /\ e.ls = <<1, 2>> \o [i \in 1..Len(d.ls) |-> d.ls[i] + 2]
     /\ e.occs = {[o EXCEPT !.a = @ + 2, !.b = @ + 2] : o \in d.occs}
     /\ e.look = {[o EXCEPT !.a = @ + 2, !.b = @ + 2] : o \in d.look}
     /\ e.errs = [i \in 1..Len(d.errs) |-> [d.errs[i] EXCEPT !.lo = @ + 2, !.hi = @ + 2]]
     /\ SemTokens(e) = [i \in 1..Len(SemTokens(d)) |-> [SemTokens(d)[i] EXCEPT ![1] = @ + 2]]
     /\ SemanticDiags(e) = {S(x) : x \in SemanticDiags(d)}
     /\ Folding(e) = {<<x[1] + 2, x[2] + 2, x[3]>> : x \in Folding(d)}
     /\ DocSymbols(e) = {[x EXCEPT !.r = Down(@, 2), !.s = Down(@, 2)] : x \in DocSymbols(d)}

\* --- symbols (C10, C11, C12, C16) -------------------------------------------------------
OccsSane(d) ==
  /\ \A o \in d.occs : o.name = SubSeq(d.text, o.a, o.b - 1)
  /\ \A o \in d.occs : o.kind \in {"LocalVar", "Label"} <=> o.fb # 0
  /\ \A o \in d.occs : o.fb # 0 => d.fbs[o.fb].a <= o.a /\ o.b <= d.fbs[o.fb].b
  \* at most one symbol at a position
  /\ \A x, y \in d.look : x = y \/ x.b <= y.a \/ y.b <= x.a

\* Function bodies do not overlap
BodiesDisjoint(d) ==
  \A i, j \in 1..Len(d.fbs) : i < j => d.fbs[i].b <= d.fbs[j].a

\* Every use either leads to a definition or declaration, or is reported as undefined
UsesResolved(d) ==
  \A o \in {x \in d.occs : x.ud = "Use"} :
    (\E x \in Undefined(d) : x.r = ORng(d, o))
      <=> (SymOccs(d, o, "Def") = {} /\ SymOccs(d, o, "Decl") = {})

\* Each occurrence is found from each other occurrence of its symbol
NavigationConsistent(d) ==
  \A o \in d.look :
    LET p == Pos(d, o.a) IN
    /\ o.ud = "Use" => [u |-> Uri, r |-> ORng(d, o)] \in References(d, Uri, p[1], p[2])
    /\ \A x \in SameSym(d, o) \cap d.look :
         LET q == Pos(d, x.a) IN
         References(d, Uri, p[1], p[2]) = References(d, Uri, q[1], q[2])

\* --- rename (C13) -----------------------------------------------------------------------
SameStructure(d, e) ==
  /\ Len(d.toks) = Len(e.toks)
  /\ \A i \in 1..Len(d.toks) : d.toks[i].k = e.toks[i].k
  /\ Len(d.errs) = Len(e.errs) /\ Len(d.stmts) = Len(e.stmts)
  /\ Cardinality(d.occs) = Cardinality(e.occs)
  /\ Cardinality({<<o.kind, o.fb, o.name>> : o \in d.occs})
       = Cardinality({<<o.kind, o.fb, o.name>> : o \in e.occs})
  /\ Cardinality(Undefined(d)) = Cardinality(Undefined(e))
  /\ Cardinality(Duplicates(d)) = Cardinality(Duplicates(e))

Fresh == "zzq"

\* Renaming a symbol to a fresh name changes nothing but the name, and renaming it back
\* restores the text
RenameSafe(d) ==
  \A o \in {x \in d.look : x.name \notin {"@", "%", "!"} /\ ~StartsNumeric(SubSeq(x.name, 2, Len(x.name)))} :
    LET p == Pos(d, o.a)
        r == Rename(d, Uri, p[1], p[2], Fresh)
        e == Analyse(ApplyEdits(d, r.edits))
        back == {x \in e.look : x.name = Prefix(o.kind) \o Fresh /\ x.kind = o.kind}
        b == CHOOSE x \in back : TRUE
        q == Pos(e, b.a)
        r2 == Rename(e, Uri, q[1], q[2], o.name)
    IN /\ r.err = 0 /\ EditsDisjoint(r.edits)
       /\ SameStructure(d, e)
       /\ back # {}
       /\ r2.err = 0 /\ ApplyEdits(e, r2.edits) = d.text

\* --- renumbering (C14) ------------------------------------------------------------------
Canonical(name) == LET m == Numbered(name) IN m.ok => name = m.prefix \o m.nr

\* Shifting the numbering by one never merges two symbols
ShiftSafe(d) ==
  \A o \in {x \in d.look : Numbered(x.name).ok} :
    LET m == Numbered(o.name)
        E == ActionEdits(d, Uri, [kind |-> o.kind, fb |-> o.fb, nr |-> m.nr])
        e == Analyse(ApplyEdits(d, E))
    IN (/\ \A x \in d.occs : Canonical(x.name)
        \* (functions and other global symbols have separate numberings but share names)
        /\ o.kind \in {"Function", "GlobalVar"} =>
             \A x \in d.occs : x.kind \in {"Function", "GlobalVar"} => x.kind = o.kind) =>
         /\ EditsDisjoint(E) /\ E # {}
         /\ Len(d.toks) = Len(e.toks)
         /\ \A i \in 1..Len(d.toks) : d.toks[i].k = e.toks[i].k
         /\ Cardinality({x \in d.occs : x.kind = o.kind /\ x.fb = o.fb})
              = Cardinality({x \in e.occs : x.kind = o.kind /\ x.fb = o.fb})
         /\ Cardinality(NamesOf(d, o.kind, o.fb)) = Cardinality(NamesOf(e, o.kind, o.fb))

\* --- structure and control flow (C15, C17) --------------------------------------------------
\* The hints at a block name exactly the blocks with an edge to it in the graph
HintsMatchGraph(d) ==
  \A f \in RangeOf(d.fbs) : \A bb \in {c \in RangeOf(f.blocks) : c.label.k # "none"} :
    LET H == {h \in IncomingHints(d, Uri) : h.p = Pos(d, bb.colon.b)}
        named == UNION {{h.parts[i].value : i \in {j \in 1..Len(h.parts) : h.parts[j].loc # NoLoc}}
                        : h \in H}
    IN named = {e[1] : e \in {x \in CfgEdges(f) : x[2] = bb.label.t}}

FoldingNested(d) ==
  \A f \in RangeOf(d.fbs) :
    /\ \A bb \in RangeOf(f.blocks) : f.a < bb.a /\ bb.a < bb.b /\ bb.b < f.b
    /\ \A i, j \in 1..Len(f.blocks) : i < j => f.blocks[i].b <= f.blocks[j].a

\* --- errors (C08, C09) --------------------------------------------------------------------
MovedTok(t, n) == IF t.k = "none" THEN t ELSE [t EXCEPT !.a = @ + n, !.b = @ + n]
Moved(st, n) ==
  CASE st.s \in {"global", "dbg"} ->
         [st EXCEPT !.name = MovedTok(@, n), !.def = [i \in 1..Len(@) |-> MovedTok(@[i], n)]]
    [] OTHER -> [s |-> st.s, name |-> MovedTok(st.name, n)]
Essence(st) == IF st.s \in {"global", "dbg"} THEN st ELSE [s |-> st.s, name |-> st.name]

\* A text can be cut behind any error-free beginning: what follows is understood as if it
\* stood alone
Compositional(d) ==
  \A k \in 2..Len(d.ls) :
    LET n == d.ls[k] - 1
        A == Analyse(SubSeq(d.text, 1, n))
        B == Analyse(SubSeq(d.text, n + 1, Len(d.text)))
    IN (A.errs = <<>> /\ At(d.text, n) = "\n") =>
         /\ Len(d.stmts) = Len(A.stmts) + Len(B.stmts)
         /\ \A i \in 1..Len(A.stmts) : d.stmts[i] = A.stmts[i]
         /\ \A i \in 1..Len(B.stmts) :
              Essence(d.stmts[Len(A.stmts) + i]) = Essence(Moved(B.stmts[i], n))
         /\ Len(d.errs) = Len(B.errs)

\* No error hides a statement which follows it (unless it is inside of a string)
Quotes(s) == Cardinality({i \in 1..Len(s) : At(s, i) = "\""})
Contained(d) ==
  Quotes(d.text) = 0 =>
    LET e == Analyse(d.text \o "\n@zzq = 1\n")
    IN \E o \in e.occs : o.name = "@zzq" /\ o.ud = "Def" /\ o.kind = "GlobalVar"

\* Nothing is reported for a text iff all of it is part of a statement
AllUnderstood(d) == (d.errs = <<>>) => Covered(d)
===============================================================================
