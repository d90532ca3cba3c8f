------------------------------- MODULE HirIndex -------------------------------
(***************************************************************************)
(* Symbols and their occurrences, and the analysis of a whole document.    *)
(*                                                                         *)
(* An occurrence is [kind, name, fb, ud, a, b]: fb is the number of the    *)
(* function body to which a label or local variable belongs (0: global).   *)
(***************************************************************************)
EXTENDS HirNumbers

Occ(kind, fb, ud, tok) ==
  [kind |-> kind, name |-> tok.t, fb |-> fb, ud |-> ud, a |-> tok.a, b |-> tok.b]

\* --- Occurrences which stem from the statements ------------------------------------
InstOccs(fb, inst) ==
  (IF inst.tgt.k = "none" THEN {} ELSE {Occ("LocalVar", fb, "Def", inst.tgt)})
    \cup {Occ("Label", fb, "Use", r) : r \in RangeOf(inst.refs)}

BlockOccs(fb, bb) ==
  (IF bb.label.k = "none" THEN {} ELSE {Occ("Label", fb, "Def", bb.label)})
    \cup UNION {InstOccs(fb, x) : x \in RangeOf(bb.insts)}

BodyOccs(fb, def) ==
  {Occ("Function", 0, "Def", def.name)}
    \cup {Occ("LocalVar", fb, "Def", x) : x \in RangeOf(def.args)}
    \cup UNION {BlockOccs(fb, bb) : bb \in RangeOf(def.blocks)}

FlatOccs(st) ==
  CASE st.s = "global" -> {Occ("GlobalVar", 0, "Def", st.name)}
    [] st.s = "decl" -> {Occ("Function", 0, "Decl", st.name)}
    [] st.s = "dbg" -> {Occ("DbgAnnotation", 0, "Def", st.name)}
    [] OTHER -> {}

\* --- Occurrences which stem from the tokens ----------------------------------------
\* (everywhere, even where the text is malformed; local variables only within functions)
FuncNames(stmts) == {st.name.t : st \in {q \in RangeOf(stmts) : q.s \in {"decl", "def"}}}

BodyAt(fbs, o) ==
  LET S == {k \in 1..Len(fbs) : fbs[k].a <= o /\ o < fbs[k].b}
  IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE

TokenOccs(toks, fbs, funcs) ==
  {Occ(IF t.t \in funcs THEN "Function" ELSE "GlobalVar", 0, "Use", t) :
     t \in {x \in RangeOf(toks) : x.k = "global"}}
  \cup {Occ("DbgAnnotation", 0, "Use", t) : t \in {x \in RangeOf(toks) : x.k = "dbg"}}
  \cup {o \in {Occ("LocalVar", BodyAt(fbs, t.a), "Use", t) :
                 t \in {x \in RangeOf(toks) : x.k = "local"}} : o.fb # 0}

\* --- The analysis of a document -----------------------------------------------------
Analyse(s) ==
  LET lx == Lex(s)
      ts == SelectSeq(lx.toks, LAMBDA t : t.k # "comment")
      p == Parse(ts, Len(s) + 1)
      fbs == SelectSeq(p.stmts, LAMBDA st : st.s = "def")
      fromStmts == UNION {FlatOccs(st) : st \in RangeOf(p.stmts)}
                     \cup UNION {BodyOccs(k, fbs[k]) : k \in 1..Len(fbs)}
      \* a name token which already is an occurrence of the symbol is not counted twice
      fromToks == {o \in TokenOccs(lx.toks, fbs, FuncNames(p.stmts)) :
                     \A q \in fromStmts : ~(q.a = o.a /\ q.kind = o.kind)}
  IN [text |-> s, ls |-> LineStarts(s), toks |-> lx.toks, stmts |-> p.stmts,
      errs |-> lx.errs \o p.errs, soft |-> SoftErrs(p.stmts), fbs |-> fbs,
      occs |-> fromStmts \cup fromToks,
      \* what is found at a position: if in doubt, the use
      look |-> {o \in fromStmts : \A q \in fromToks : q.a # o.a} \cup fromToks]

Rng(d, a, b) == RngOf(d.ls, a, b)
ORng(d, o) == RngOf(d.ls, o.a, o.b)
Pos(d, o) == PosOf(d.ls, o)

\* The occurrence at an LSP position, as a set with at most one element
SymAt(d, line, ch) ==
  LET o == OffsetOf(d.text, d.ls, line, ch) IN
  IF o = 0 THEN {} ELSE {x \in d.look : x.a <= o /\ o < x.b}

\* All occurrences of the same symbol
SameSym(d, o) == {x \in d.occs : x.name = o.name /\ x.kind = o.kind /\ x.fb = o.fb}
SymOccs(d, o, ud) == {x \in SameSym(d, o) : x.ud = ud}

\* All symbols of a kind (in a function body)
NamesOf(d, kind, fb) == {x.name : x \in {y \in d.occs : y.kind = kind /\ y.fb = fb}}
===============================================================================
