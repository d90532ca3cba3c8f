------------------------------- MODULE HirParser ------------------------------
(***************************************************************************)
(* The grammar of Hyper IR and how parsing recovers from errors.           *)
(*                                                                         *)
(* Parse(toks, eof) takes the tokens without comments and yields           *)
(* [stmts, errs].  Alternatives are ordered, repetitions are greedy.       *)
(*                                                                         *)
(* If no statement starts at the current token, tokens are skipped one at  *)
(* a time until one does; each such run of skipped tokens is one error.    *)
(* The report of an error starts on the line on which the best alternative *)
(* got stuck ([lo, hi] in offsets).                                        *)
(***************************************************************************)
EXTENDS HirLexer

EofTok(eof) == [k |-> "eof", a |-> eof, b |-> eof, t |-> ""]

\* (v: the offsets of complaints before the failure)
Fail(f) == [ok |-> FALSE, i |-> f, v |-> {}]
Ok(i, v) == [ok |-> TRUE, i |-> i, v |-> v]

\* --- Helpers on a token sequence ts -------------------------------------------------
TokAt(ts, eof, i) == IF i <= Len(ts) THEN ts[i] ELSE EofTok(eof)

EndsWithBr(t) == Len(t) >= 2 /\ SubSeq(t, Len(t) - 1, Len(t)) = "br"
IsBranching(name) == EndsWithBr(name) \/ name = "switch"

\* optional complaints at these offsets
MaybeAt[S \in SUBSET Nat] ==
  IF S = {} THEN <<>>
  ELSE LET o == CHOOSE x \in S : TRUE
       IN <<[lo |-> o, hi |-> o, opt |-> TRUE]>> \o MaybeAt[S \ {o}]

Parse(ts, eof) ==
  LET
    T(i) == TokAt(ts, eof, i)
    K(i) == TokAt(ts, eof, i).k
    IsP(i, c) == LET x == T(i) IN x.k = "punct" /\ x.t = c
    IsId(i, n) == LET x == T(i) IN x.k = "ident" /\ x.t = n

    \* the first index >= i which is no newline / is a newline or the end of input
    SkipNl[i \in Nat] == IF K(i) = "nl" THEN SkipNl[i + 1] ELSE i
    LineEnd[i \in Nat] == IF K(i) \in {"nl", "eof"} THEN i ELSE LineEnd[i + 1]

    \* --- instructions ----------------------------------------------------------------
    \* An instruction alternative yields [ok, i: first index behind it, refs, dbg, soft];
    \* it has to be followed by a newline, which is not part of it
    NoInst == [ok |-> FALSE, i |-> 0, refs |-> <<>>, dbg |-> NoTok, soft |-> FALSE]
    Finish(j, refs) ==
      LET d == IF K(j) = "dbg" THEN T(j) ELSE NoTok
          e == IF K(j) = "dbg" THEN j + 1 ELSE j
      IN IF K(e) = "nl" THEN [ok |-> TRUE, i |-> e, refs |-> refs, dbg |-> d, soft |-> FALSE]
         ELSE NoInst

    Br(j) ==
      IF IsId(j, "br") /\ K(j + 1) = "ident" THEN Finish(j + 2, <<T(j + 1)>>) ELSE NoInst

    CondBr(j) ==
      IF /\ IsId(j, "br") /\ K(j + 1) = "type" /\ T(j + 1).t = "int1"
         /\ K(j + 2) # "eof" /\ IsP(j + 3, ",") /\ K(j + 4) = "ident"
         /\ IsP(j + 5, ",") /\ K(j + 6) = "ident"
      THEN Finish(j + 7, <<T(j + 4), T(j + 6)>>) ELSE NoInst

    \* skips operands up to `, <stop>`
    Operands[j \in Nat, stop \in STRING] ==
      IF K(j) \in {"nl", "eof"} THEN j
      ELSE IF ~IsP(j, ",") THEN Operands[j + 1, stop]
      ELSE IF IsId(j + 1, stop) \/ K(j + 1) = "eof" THEN j
      ELSE Operands[j + 2, stop]

    OverflowBr(j) ==
      IF K(j) # "ident" THEN NoInst
      ELSE LET k == Operands[j + 1, "cont"] IN
        IF /\ IsP(k, ",") /\ IsId(k + 1, "cont") /\ IsP(k + 2, "=") /\ K(k + 3) = "ident"
           /\ IsP(k + 4, ",") /\ IsId(k + 5, "overflow") /\ IsP(k + 6, "=")
           /\ K(k + 7) = "ident"
        THEN [Finish(k + 8, <<T(k + 3), T(k + 7)>>) EXCEPT !.soft = ~EndsWithBr(T(j).t)]
        ELSE NoInst

    Case(j) == /\ K(j) = "type" /\ K(j + 1) # "eof" /\ IsId(j + 2, "label")
               /\ IsP(j + 3, "=") /\ K(j + 4) = "ident"
    MoreCases[j \in Nat] ==
      IF IsP(j, ",") /\ Case(j + 1)
      THEN LET r == MoreCases[j + 6] IN [i |-> r.i, refs |-> <<T(j + 5)>> \o r.refs]
      ELSE [i |-> j, refs |-> <<>>]
    Switch(j) ==
      IF ~IsId(j, "switch") THEN NoInst
      ELSE LET k == Operands[j + 1, "default"] IN
        IF /\ IsP(k, ",") /\ IsId(k + 1, "default") /\ IsP(k + 2, "=") /\ K(k + 3) = "ident"
           /\ IsP(k + 4, ",")
        THEN IF Case(k + 5)
             THEN LET r == MoreCases[k + 10]
                  IN Finish(r.i, <<T(k + 3), T(k + 9)>> \o r.refs)
             ELSE Finish(k + 5, <<T(k + 3)>>)
        ELSE NoInst

    \* the first index >= i with `]`, a newline or the end of input
    PhiSoup[i \in Nat] == IF K(i) \in {"nl", "eof"} \/ IsP(i, "]") THEN i ELSE PhiSoup[i + 1]
    \* the index behind the `[lbl, ...]` at j, 0 if there is none
    PhiArg(j) ==
      IF IsP(j, "[") /\ K(j + 1) = "ident" /\ IsP(j + 2, ",")
      THEN LET e == PhiSoup[j + 3] IN IF IsP(e, "]") THEN e + 1 ELSE 0
      ELSE 0
    MorePhi[j \in Nat] ==
      LET e == IF IsP(j, ",") THEN PhiArg(j + 1) ELSE 0 IN
      IF e > 0 THEN LET r == MorePhi[e] IN [i |-> r.i, refs |-> <<T(j + 2)>> \o r.refs]
      ELSE [i |-> j, refs |-> <<>>]
    Phi(j) ==
      IF ~IsId(j, "phi") THEN NoInst
      ELSE LET e == PhiArg(j + 1) IN
        IF e > 0 THEN LET r == MorePhi[e] IN Finish(r.i, <<T(j + 2)>> \o r.refs)
        ELSE Finish(j + 1, <<>>)

    AnySoup[i \in Nat] == IF K(i) \in {"nl", "eof", "dbg"} THEN i ELSE AnySoup[i + 1]
    AnyInst(j) ==
      IF K(j) = "ident" /\ K(j + 1) # "eof" /\ ~IsP(j + 1, ":")
      THEN Finish(AnySoup[j + 1], <<>>) ELSE NoInst

    \* An alternative which is accepted only with a complaint (soft) is the last resort
    InstBody(j) ==
      LET r1 == Br(j) IN IF r1.ok THEN r1 ELSE
      LET r2 == CondBr(j) IN IF r2.ok THEN r2 ELSE
      LET r3 == OverflowBr(j) IN IF r3.ok /\ ~r3.soft THEN r3 ELSE
      LET r4 == Switch(j) IN IF r4.ok THEN r4 ELSE
      LET r5 == Phi(j) IN IF r5.ok THEN r5 ELSE
      LET r6 == AnyInst(j) IN IF r6.ok THEN r6 ELSE r3

    Inst(i) ==
      LET hasTgt == K(i) = "type" /\ K(i + 1) = "local" /\ IsP(i + 2, "=")
          j == IF hasTgt THEN i + 3 ELSE i
          r == IF K(j) = "ident" THEN InstBody(j) ELSE NoInst
      IN IF ~r.ok THEN Fail(i)
         ELSE Ok(r.i, [tgt |-> IF hasTgt THEN T(i + 1) ELSE NoTok, name |-> T(j),
                       refs |-> r.refs, dbg |-> r.dbg, soft |-> r.soft,
                       a |-> T(i).a, b |-> T(r.i - 1).b])

    \* instructions, each surrounded by newlines; i = first index behind them
    Insts[i0 \in Nat] ==
      LET i == SkipNl[i0]
          r == Inst(i)
      IN IF r.ok THEN LET q == Insts[SkipNl[r.i]] IN [i |-> q.i, v |-> <<r.v>> \o q.v]
         ELSE [i |-> i0, v |-> <<>>]

    Block(i) ==
      IF K(i) = "ident" /\ IsP(i + 1, ":") /\ K(i + 2) = "nl"
      THEN LET r == Insts[SkipNl[i + 2]] IN
           Ok(r.i, [label |-> T(i), colon |-> T(i + 1), insts |-> r.v, a |-> T(i).a,
                    b |-> IF r.v = <<>> THEN T(i).b ELSE r.v[Len(r.v)].b])
      ELSE Fail(i)
    Blocks[i \in Nat] ==
      LET r == Block(i) IN
      IF r.ok THEN LET q == Blocks[r.i] IN [i |-> q.i, v |-> <<r.v>> \o q.v]
      ELSE [i |-> i, v |-> <<>>]

    \* --- statements ---------------------------------------------------------------------
    Eol(i) == K(i) \in {"nl", "eof"}
    AfterEol(i) == IF K(i) = "nl" THEN i + 1 ELSE i

    Mods[i \in Nat] == IF K(i) = "mod" THEN Mods[i + 1] ELSE i
    MoreArgs[i \in Nat] ==
      IF IsP(i, ",") /\ K(i + 1) = "type" /\ K(i + 2) = "local"
      THEN LET r == MoreArgs[i + 3] IN [i |-> r.i, v |-> <<T(i + 2)>> \o r.v]
      ELSE [i |-> i, v |-> <<>>]
    Args(i) ==
      IF K(i) = "type" /\ K(i + 1) = "local"
      THEN LET r == MoreArgs[i + 2] IN [i |-> r.i, v |-> <<T(i + 1)>> \o r.v]
      ELSE [i |-> i, v |-> <<>>]
    \* signature starting at i; v = [name, args]
    Sig(i) ==
      LET m == Mods[i] IN
      IF K(m) # "type" THEN Fail(m)
      ELSE IF K(m + 1) # "global" THEN Fail(m + 1)
      ELSE IF ~IsP(m + 2, "(") THEN Fail(m + 2)
      ELSE LET r == Args(m + 3) IN
        IF ~IsP(r.i, ")") THEN Fail(r.i)
        ELSE Ok(r.i + 1, [name |-> T(m + 1), args |-> r.v])

    Decl(i) ==
      LET s == Sig(i + 1) IN
      IF ~s.ok THEN s
      ELSE LET j == IF IsP(s.i, "=") /\ K(s.i + 1) = "hex" THEN s.i + 2 ELSE s.i
               d == IF K(j) = "dbg" THEN T(j) ELSE NoTok
               e == IF K(j) = "dbg" THEN j + 1 ELSE j
           IN IF Eol(e)
              THEN Ok(AfterEol(e), [s |-> "decl", name |-> s.v.name, args |-> s.v.args, dbg |-> d])
              ELSE Fail(e)

    Def(i) ==
      LET s == Sig(i + 1) IN
      IF ~s.ok THEN s
      ELSE IF ~IsP(s.i, "{") THEN Fail(s.i)
      ELSE IF K(s.i + 1) # "nl" THEN Fail(s.i + 1)
      ELSE LET q == Insts[SkipNl[s.i + 1]]
               bs == Blocks[q.i]
               init == IF q.v = <<>> THEN <<>>
                       ELSE <<[label |-> NoTok, colon |-> NoTok, insts |-> q.v,
                               a |-> q.v[1].a, b |-> q.v[Len(q.v)].b]>>
               softs == UNION {{x.name.a : x \in {y \in RangeOf(b.insts) : y.soft}} : b \in RangeOf(init \o bs.v)}
           IN IF ~IsP(bs.i, "}") THEN [ok |-> FALSE, i |-> SkipNl[bs.i], v |-> softs]
              ELSE IF ~Eol(bs.i + 1) THEN [ok |-> FALSE, i |-> bs.i + 1, v |-> softs]
              ELSE Ok(AfterEol(bs.i + 1),
                      [s |-> "def", name |-> s.v.name, args |-> s.v.args,
                       a |-> T(i).a, b |-> T(bs.i).b, blocks |-> init \o bs.v])

    MoreDeps[i \in Nat] ==
      IF IsP(i, ",") /\ K(i + 1) = "global" THEN MoreDeps[i + 2] ELSE i

    \* name = <tokens up to the end of the line>
    Assign(i, kind) ==
      LET e == LineEnd[i + 2] IN
      Ok(AfterEol(e), [s |-> kind, name |-> T(i), def |-> SubSeq(ts, i + 2, e - 1)])

    Stmt(i) ==
      CASE K(i) = "global" ->
             IF IsP(i + 1, "=") THEN Assign(i, "global")
             ELSE IF ~IsId(i + 1, "depends") THEN Fail(i + 1)
             ELSE IF ~IsId(i + 2, "on") THEN Fail(i + 2)
             ELSE Ok(IF K(i + 3) = "global" THEN MoreDeps[i + 4] ELSE i + 3,
                     [s |-> "deps", name |-> T(i)])
        [] K(i) = "dbg" -> IF IsP(i + 1, "=") THEN Assign(i, "dbg") ELSE Fail(i + 1)
        [] K(i) = "declare" -> Decl(i)
        [] K(i) = "define" -> Def(i)
        [] OTHER -> Fail(i)

    \* the first index >= i at which a statement starts, Len(ts)+1 if there is none
    ResyncStmt[i \in Nat] ==
      IF i > Len(ts) THEN i
      ELSE IF K(i) \in {"global", "dbg", "declare", "define"} /\ Stmt(i).ok THEN i
      ELSE ResyncStmt[i + 1]

    Stmts[i0 \in Nat] ==
      LET i == SkipNl[i0] IN
      IF i > Len(ts) THEN [stmts |-> <<>>, errs |-> <<>>]
      ELSE LET r == Stmt(i) IN
        IF r.ok THEN
          LET q == Stmts[r.i] IN [q EXCEPT !.stmts = <<r.v>> \o @]
        ELSE
          LET q == Stmts[ResyncStmt[i + 1]]
              \* (a comma or type at the end of a line makes some alternatives look further ahead)
              far == IF \E k \in i..LineEnd[r.i] : (IsP(k, ",") \/ K(k) = "type") /\ K(k + 1) = "nl"
                     THEN eof ELSE T(LineEnd[r.i]).a
              e == [lo |-> T(r.i).a, hi |-> far, opt |-> FALSE]
              \* complaints about earlier instructions of the same function may be reported, too
              c == MaybeAt[r.v]
          IN [q EXCEPT !.errs = <<e>> \o c \o @]
  IN Stmts[1]

\* Complaints about instructions which were accepted as a last resort
SoftErrs(stmts) ==
  UNION {UNION {{[lo |-> x.name.a, hi |-> x.name.a, opt |-> FALSE] :
                   x \in {y \in RangeOf(b.insts) : y.soft}}
                : b \in RangeOf(st.blocks)}
         : st \in {q \in RangeOf(stmts) : q.s = "def"}}
===============================================================================
