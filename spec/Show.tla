---------------------------------- MODULE Show --------------------------------
(* Debugging aid: evaluates the specification on one document (env DOC_FILE: [text, uri]). *)
EXTENDS Server, IOUtils
In == JsonDeserialize(IOEnv.DOC_FILE)
D == Analyse(In.text)
ASSUME PrintT(<<"errs", {<<PosOf(D.ls, e.lo), PosOf(D.ls, e.hi)>> : e \in SyntaxErrs(D)}>>)
ASSUME PrintT(<<"hints", InlayHints(D, In.uri, In.roots, In.json)>>)
ASSUME PrintT(<<"stmts", D.stmts>>)
Nope == FALSE /\ UNCHANGED svars
===============================================================================
