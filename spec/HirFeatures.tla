------------------------------ MODULE HirFeatures -----------------------------
(***************************************************************************)
(* The answer to each LSP request as a function of the analysed document   *)
(* d (HirIndex!Analyse), its URI and the workspace roots.  Answers whose   *)
(* order carries no meaning are sets.                                      *)
(***************************************************************************)
EXTENDS HirBacktrace

\* --- Semantic tokens: <<line, character, length, type>> in order -----------------------
SemType(k) ==
  CASE k = "comment" -> "comment"
    [] k \in {"num", "hex"} -> "number"
    [] k = "str" -> "string"
    [] k \in {"local", "global"} -> "variable"
    [] k = "type" -> "type"
    [] k \in {"declare", "define"} -> "keyword"
    [] k = "mod" -> "modifier"
    [] OTHER -> ""

SemTokens(d) ==
  LET ts == SelectSeq(d.toks, LAMBDA t : SemType(t.k) # "")
  IN [i \in 1..Len(ts) |-> Pos(d, ts[i].a) \o <<ts[i].b - ts[i].a, SemType(ts[i].k)>>]

\* --- Navigation -----------------------------------------------------------------------
\* files which the debug annotations of a function's declarations refer to
ExternalDefs(d, name) ==
  LET st == d.stmts
      refs == {st[j].dbg.t : j \in {i \in 1..Len(st) : /\ st[i].s = "decl" /\ st[i].dbg.k # "none"
                                                       /\ st[i].name.t = name}}
      Strip(t) == SubSeq(t, 2, Len(t) - 1)
  IN {PathLine(Strip(st[k].def[1].t)) :
        k \in {j \in 1..Len(st) : /\ st[j].s = "dbg" /\ Len(st[j].def) = 1
                                  /\ st[j].def[1].k = "str"
                                  /\ PathLine(Strip(st[j].def[1].t)).ok
                                  /\ st[j].name.t \in refs}}

ExternalTargets(d, roots, o) ==
  IF o.kind # "Function" THEN {}
  ELSE LET R == {[u |-> Resolve(roots, e.path), line |-> LineNo(e.line)] :
                   e \in ExternalDefs(d, o.name)}
       IN {[u |-> r.u, r |-> <<Max(r.line, 1) - 1, 0, Max(r.line, 1) - 1, 0>>] :
             r \in {x \in R : x.u # ""}}

LocalTargets(d, uri, o, ud) == {[u |-> uri, r |-> ORng(d, x)] : x \in SymOccs(d, o, ud)}

\* a link is [u: target, t: target range, s: target selection, o: origin]
Links(d, o, targets) == {[u |-> x.u, t |-> x.r, s |-> x.r, o |-> ORng(d, o)] : x \in targets}

Definition(d, uri, roots, line, ch) ==
  UNION {Links(d, o, LocalTargets(d, uri, o, "Def") \cup ExternalTargets(d, roots, o)) :
           o \in SymAt(d, line, ch)}
Declaration(d, uri, line, ch) ==
  UNION {Links(d, o, LocalTargets(d, uri, o, "Decl")) : o \in SymAt(d, line, ch)}
References(d, uri, line, ch) ==
  UNION {LocalTargets(d, uri, o, "Use") : o \in SymAt(d, line, ch)}

\* --- Rename ---------------------------------------------------------------------------
PrepareRename(d, line, ch) == {ORng(d, o) : o \in SymAt(d, line, ch)}

Prefix(kind) ==
  CASE kind \in {"GlobalVar", "Function"} -> "@"
    [] kind = "DbgAnnotation" -> "!"
    [] kind = "LocalVar" -> "%"
    [] OTHER -> ""
TokKind(kind) ==
  CASE kind \in {"GlobalVar", "Function"} -> "global"
    [] kind = "DbgAnnotation" -> "dbg"
    [] kind = "LocalVar" -> "local"
    [] OTHER -> "ident"

\* the name with its prefix, which the user may omit; "" if it is invalid
NewName(kind, s) ==
  LET pre == Prefix(kind)
      rest == IF pre # "" /\ At(s, 1) = pre THEN SubSeq(s, 2, Len(s)) ELSE s
      full == pre \o rest
      tok == LexAt(full, 1)
  IN IF \/ rest = ""
        \/ kind # "DbgAnnotation" /\ StartsNumeric(rest)
        \/ tok.k # TokKind(kind)
        \/ tok.b # Len(full) + 1
     THEN "" ELSE full

Edits(d, uri, occs, name) == {[u |-> uri, r |-> ORng(d, x), n |-> name] : x \in occs}

\* shifts the numbers >= nr of all symbols of a kind (in a function body)
ShiftEdits(d, uri, kind, fb, nr, neg, by) ==
  UNION {LET m == Numbered(name) IN
         IF m.ok /\ Cmp(m.nr, nr) >= 0
         THEN Edits(d, uri, {x \in d.occs : x.kind = kind /\ x.fb = fb /\ x.name = name},
                    m.prefix \o AbsShift(m.nr, neg, by))
         ELSE {}
         : name \in NamesOf(d, kind, fb)}

Invalid == [err |-> 0 - 32602, edits |-> {}]
Valid(E) == [err |-> 0, edits |-> E]

Rename(d, uri, line, ch, newName) ==
  LET S == SymAt(d, line, ch) IN
  IF S = {} THEN Invalid
  ELSE LET o == CHOOSE o \in S : TRUE IN
    IF At(newName, 1) \in {"+", "-"} THEN
      LET rel == RelShift(newName)
          m == Numbered(o.name)
      IN IF ~rel.ok \/ ~m.ok THEN Invalid
         ELSE Valid(ShiftEdits(d, uri, o.kind, o.fb, m.nr, rel.neg, rel.n))
    ELSE LET n == NewName(o.kind, newName) IN
      IF n = "" THEN Invalid ELSE Valid(Edits(d, uri, SameSym(d, o), n))

\* --- Code actions ------------------------------------------------------------------------
ActionTitle(kind) ==
  CASE kind = "GlobalVar" -> "Shift global variable numbering"
    [] kind = "Function" -> "Shift function numbering"
    [] kind = "DbgAnnotation" -> "Shift debug numbering"
    [] kind = "Label" -> "Shift basic block numbering"
    [] OTHER -> "Shift variable numbering"

\* The symbol whose numbering can be shifted, as a set with at most one element
CodeActionSym(d, rng) ==
  IF <<rng[1], rng[2]>> # <<rng[3], rng[4]>> THEN {}
  ELSE {o \in SymAt(d, rng[1], rng[2]) : Numbered(o.name).ok}
ActionEdits(d, uri, act) == ShiftEdits(d, uri, act.kind, act.fb, act.nr, FALSE, "1")

\* --- Structure -----------------------------------------------------------------------------
KConstant == 14
KFunction == 12
DocSymbols(d) ==
  {[name |-> o.name, kind |-> KConstant, r |-> ORng(d, o), s |-> ORng(d, o)] :
     o \in {x \in d.occs : x.kind = "GlobalVar" /\ x.ud = "Def"}}
  \cup {[name |-> f.name.t, kind |-> KFunction, r |-> Rng(d, f.a, f.b),
         s |-> Rng(d, f.name.a, f.name.b)] : f \in RangeOf(d.fbs)}

Lines(d, a, b) == <<Pos(d, a)[1], Pos(d, b)[1]>>
Folding(d) ==
  {Lines(d, d.fbs[k].a, d.fbs[k].b)
     \o <<ToString(Len(d.fbs[k].blocks)) \o " basic blocks">> :
       k \in 1..Len(d.fbs)}
  \cup UNION {{Lines(d, bb.a, bb.b) \o <<ToString(Len(bb.insts)) \o " instructions">> :
                 bb \in RangeOf(f.blocks)} : f \in RangeOf(d.fbs)}

LensTitle == CharTab.sparkles \o " Visualize Controlflow"
CodeLenses(d, uri) ==
  {[r |-> ORng(d, o), title |-> LensTitle, cmd |-> "visualize-cfg", args |-> <<uri, o.name>>] :
     o \in {x \in d.occs : /\ x.kind = "Function" /\ x.ud = "Def"
                           /\ Cardinality(SymOccs(d, x, "Def")) = 1}}

\* --- Control flow ----------------------------------------------------------------------------
\* <<from block, to label>>, both as tokens
Branches(f) ==
  UNION {UNION {{<<bb.label, r>> : r \in RangeOf(x.refs)} :
                  x \in {y \in RangeOf(bb.insts) : IsBranching(y.name.t)}}
         : bb \in {c \in RangeOf(f.blocks) : c.label.k # "none"}}

CfgEdges(f) == {<<e[1].t, e[2].t>> : e \in Branches(f)}

\* The function body which is visualized for a function name: the first one
CfgBody(d, name) ==
  LET S == {k \in 1..Len(d.fbs) : d.fbs[k].name.t = name} IN
  IF S = {} THEN 0 ELSE FirstIn(S)

\* --- Inlay hints --------------------------------------------------------------------------------
\* A hint is [p: position, parts]
RECURSIVE SortToks(_)
SortToks(S) ==
  IF S = {} THEN <<>>
  ELSE LET m == CHOOSE x \in S : \A y \in S : x.a <= y.a IN <<m>> \o SortToks(S \ {m})

IncomingParts(d, uri, from) ==
  LET F[k \in Nat] ==
        IF k > Len(from) THEN <<>>
        ELSE <<Part(IF k = 1 THEN "incoming: " ELSE ", ", NoLoc, ""),
               Part(from[k].t, <<uri, Rng(d, from[k].a, from[k].b)>>, "")>> \o F[k + 1]
  IN F[1]

IncomingHints(d, uri) ==
  UNION {LET br == Branches(f) IN
         {[p |-> Pos(d, bb.colon.b),
           parts |-> IncomingParts(d, uri, SortToks({e[1] : e \in {x \in br : x[2].t = bb.label.t}}))] :
            bb \in {c \in RangeOf(f.blocks) :
                      c.label.k # "none" /\ \E e \in br : e[2].t = c.label.t}}
         : f \in RangeOf(d.fbs)}

EndHints(d, uri) ==
  {[p |-> Pos(d, f.b),
    parts |-> <<Part(f.name.t, <<uri, Rng(d, f.name.a, f.name.b)>>, "")>>] : f \in RangeOf(d.fbs)}

\* The text of the (last non-empty) definition of a debug annotation; "" if there is none
DbgValue(d, name) ==
  LET S == {k \in 1..Len(d.stmts) : /\ d.stmts[k].s = "dbg" /\ d.stmts[k].name.t = name
                                    /\ d.stmts[k].def # <<>>}
  IN IF S = {} THEN ""
     ELSE LET def == d.stmts[CHOOSE k \in S : \A j \in S : j <= k].def
          IN SubSeq(d.text, def[1].a, def[Len(def)].b - 1)

DbgRefs(d) ==
  UNION {UNION {{x.dbg : x \in {y \in RangeOf(bb.insts) : y.dbg.k # "none"}} :
                  bb \in RangeOf(f.blocks)} : f \in RangeOf(d.fbs)}

\* json: function from texts to [ok, frames], given by the environment
BacktraceHints(d, roots, json) ==
  {[p |-> Pos(d, r.b), parts |-> BacktraceParts(roots, json[DbgValue(d, r.t)].frames)] :
     r \in {x \in DbgRefs(d) : LET v == DbgValue(d, x.t) IN
                                 v # "" /\ v \in DOMAIN json /\ json[v].ok}}

InlayHints(d, uri, roots, json) ==
  IncomingHints(d, uri) \cup EndHints(d, uri) \cup BacktraceHints(d, roots, json)

\* --- Diagnostics -----------------------------------------------------------------------------------
Undefined(d) ==
  {[k |-> "undef", r |-> ORng(d, o), name |-> o.name, rel |-> <<>>, sev |-> 1] :
     o \in {x \in d.occs : x.ud = "Use" /\ \A y \in SameSym(d, x) : y.ud = "Use"}}

Duplicates(d) ==
  {[k |-> "dup", r |-> ORng(d, o), name |-> o.name,
    rel |-> ORng(d, CHOOSE y \in SymOccs(d, o, "Def") : \A z \in SymOccs(d, o, "Def") : y.a <= z.a),
    sev |-> 1] :
     o \in {x \in d.occs : x.ud = "Def" /\ \E y \in SymOccs(d, x, "Def") : y.a < x.a}}

NoTargets(d) ==
  UNION {UNION {{[k |-> "branch", r |-> Rng(d, x.name.a, x.name.b), name |-> x.name.t, rel |-> <<>>,
                  sev |-> 1] :
                   x \in {y \in RangeOf(bb.insts) : /\ y.refs = <<>>
                                                    /\ IsBranching(y.name.t) \/ y.name.t = "phi"}}
                : bb \in RangeOf(f.blocks)} : f \in RangeOf(d.fbs)}

SemanticDiags(d) == Undefined(d) \cup Duplicates(d) \cup NoTargets(d)

\* Errors which have to be reported, and those which may be
SyntaxErrs(d) == {e \in RangeOf(d.errs) : ~e.opt} \cup d.soft
MaybeErrs(d) == {e \in RangeOf(d.errs) : e.opt}
===============================================================================
