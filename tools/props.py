import json, os
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M="src/main.rs"
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None))
    return d
NOLSP="No existing test speaks the protocol: the 18 unit tests call the tokenizer, parser, index, number extraction and backtrace parsing on a handful of fixed strings."
P=[
p("C01","Protocol lifecycle and truthful capabilities",
 "Every request gets exactly one answer, and before `initialize`, after `shutdown` and for a second `initialize` this answer is the error LSP prescribes for that phase, so that `uninitialized -> ready -> shut down -> exited` is never left or repeated. The capabilities which `initialize` announces (full text sync, all eleven language features, the `visualize-cfg` command, the token legend, lazy resolving of code actions exactly if the client supports resolving the `edit` property with data) are those the server then honours. Commands that do not exist or have bad arguments, unknown functions or documents are rejected with `InvalidParams`, and `exit` ends the process.",
 ["histories","inputs","configurations"],"all sequences of lifecycle messages, requests and notifications in any phase, for all client capabilities and workspace folder configurations",
 NOLSP+" Lifecycle is a property of message histories.",[M],
 [("initialize: capability negotiation","src/main.rs initialize"),("execute_command: argument validation","src/main.rs execute_command"),("tower-lsp service states","src/main.rs main")],
 [("supports_lazy_resolve / lazy code actions","client can resolve edits lazily","src/main.rs Backend")],["JSON-RPC responses on stdout","process exit"]),
p("C02","Answers reflect exactly the latest text, independent of history",
 "After any sequence of opening, changing, closing and reopening documents, every answer and every published diagnostic is the one that the most recently sent text determines; nothing of earlier texts (symbols, positions, references, control flow, diagnostics) survives and nothing of the new text is missed, and of several content changes in one notification the last one wins. A request is answered for the text which was current when the client sent it, also when it is pipelined between edits.",
 ["histories","schedules","inputs"],"all edit histories of all documents with requests interleaved at any point, pipelined or not",
 NOLSP+" They analyse each text once, from scratch, and never see a second version of a document.",[M,"src/hir_index.rs"],
 [("on_change replaces the analysed document as a whole","src/main.rs on_change"),("did_change picks the last content change","src/main.rs did_change"),("requests are handled in order","tower-lsp, src/main.rs main")],
 [("doc_map","URI -> analysed document (text, parse result, index)","src/main.rs Backend")],["all responses","publishDiagnostics"]),
p("C03","Documents are isolated from each other and identified by their URI",
 "An answer about a document depends on that document alone: opening, changing or closing other documents (similar URIs, same contents, same symbol names included) never changes it, and every location, edit, lens, graph and diagnostic it contains carries exactly the URI of the document it belongs to. For documents which the server has not been given, requests yield an empty result or an error, never data of another document.",
 ["histories","inputs"],"all histories over any number of documents and URIs, including documents which were never opened",
 NOLSP+" None has two documents.",[M],
 [("doc_map keyed by the full URI","src/main.rs on_change, get_use_def_ranges"),("unknown documents are handled per request","src/main.rs rename, code_action, execute_command")],
 [("doc_map","URI -> analysed document","src/main.rs Backend")],["all responses","publishDiagnostics"]),
p("C04","Diagnostics are published once per text, in order, with its version",
 "For each text which the client sends (didOpen or didChange), the server publishes exactly one set of diagnostics; it carries the URI and version of that text and describes that text completely (an empty set if there is nothing to report, so that stale diagnostics vanish). The publications of a document appear in the order of its texts and nothing is published without a new text.",
 ["histories","schedules"],"all edit histories, bursts of edits without waiting, and any interleaving with requests, graphs pending on the client and cancellations",
 NOLSP,[M,"src/diagnostics.rs"],
 [("on_change computes and publishes the diagnostics of the new text","src/main.rs on_change"),("diagnostics_from_*","src/diagnostics.rs")],[],["textDocument/publishDiagnostics"]),
p("C05","The server always answers: no deadlock, starvation or lost request",
 "Whatever the client does or omits - leaving a graph request unanswered, refusing it, cancelling requests, editing the same document meanwhile, pipelining many messages - every request that is not itself waiting for the client is answered and every text is analysed and published. A `visualize-cfg` command is answered once the client has acknowledged its graph (with an error if it refused it), and cancelling it harms nothing else.",
 ["schedules","histories","fault_sequences"],"all interleavings of client messages with the steps of the server's event loop, with graphs acknowledged late, never, or with an error, and requests cancelled at any point",
 "No test runs the server; the failures need a request in flight while another message arrives, which only a schedule can produce.",[M],
 [("no lock on a document is held while waiting for the client","src/main.rs execute_command"),("work which must not be cancelled is detached","src/main.rs execute_command"),("concurrency 4, buffered, in order","tower-lsp transport")],
 [("doc_map","sharded map with locks","src/main.rs Backend")],["responses","publishDiagnostics","hyperir/showDot"]),
p("C06","No input crashes or wedges the server",
 "For every text (arbitrary Unicode, control characters, unterminated or deeply repeated constructs, empty, huge numbers), every position and range (beyond the end of lines or of the document), every new name and every request payload, valid or not, the server stays alive and answers; malformed parameters are rejected with an error and leave the server's state as it was.",
 ["inputs","histories"],"all texts, positions, ranges, names, JSON payloads, URIs and sequences of them",
 "The unit tests parse about twenty fixed ASCII snippets and two example files; panics arise from multi-byte text, numbers near the limits of 64 bits, positions out of range and malformed payloads.",
 [M,"src/rename.rs","src/lsp_utils.rs","src/backtrace.rs","src/hir_tokenizer.rs","src/hir_index.rs"],
 [("positions are validated before use","src/lsp_utils.rs lsp_pos_to_offset"),("arithmetic on numbers cannot overflow","src/rename.rs get_shift_edits"),("parameters are parsed before use","src/main.rs execute_command, do_code_action_resolve")],[],["liveness of the process","responses"]),
p("C07","Semantic tokens classify exactly the tokens of the text",
 "Semantic tokens, decoded with the announced legend, are exactly the tokens of the current text that have a type - comments, numbers, strings, types, global (`@`) and local (`%`) names, the keywords `define` and `declare`, modifiers - each once, in document order, with its exact line, UTF-16 column and length. Neither malformed statements nor characters which belong to no token change the classification of the other tokens.",
 ["inputs"],"all texts",
 "test_tokenizer checks five lines of plain ASCII; the encoding of tokens relative to each other and to the legend is not tested at all.",
 ["src/hir_tokenizer.rs","src/semantic_token.rs",M],
 [("tokenizer","src/hir_tokenizer.rs tokenizer"),("semantic_tokens_from_tokens, convert_to_lsp_tokens","src/semantic_token.rs"),("legend","src/main.rs initialize")],[],["textDocument/semanticTokens/full"]),
p("C08","Syntax errors are reported exactly for malformed text",
 "The diagnostics of a text contain a syntax error if and only if the text is not well-formed Hyper IR: well-formed texts never get one, and each malformed line, statement or stray character gets exactly one, located at the offending place. A missing end (e.g. of a function body, string or list at the end of the file) is reported as well.",
 ["inputs"],"all texts, well-formed or malformed in any combination of places",
 "The tests accept two example files and reject two hand-written ones; both directions of the equivalence quantify over all texts.",
 ["src/hir_parser.rs","src/hir_tokenizer.rs","src/diagnostics.rs"],
 [("parser and its recovery","src/hir_parser.rs parser"),("diagnostics_from_parser","src/diagnostics.rs")],[],["publishDiagnostics"]),
p("C09","A malformed statement does not affect the rest of the document",
 "Errors are contained: a malformed line or statement affects nothing but itself. All features keep working on everything else - the other statements keep their symbols, outline, folding, lenses, hints, control flow, semantic diagnostics and tokens exactly as if the malformed part were absent, at their true positions.",
 ["inputs"],"all well-formed documents with malformed statements, broken lines, truncations or stray characters at any places",
 "test_recovers_* check the statements found in two documents; the guarantee quantifies over every place and kind of error and over all features.",
 ["src/hir_parser.rs","src/hir_tokenizer.rs","src/hir_index.rs"],
 [("error recovery of statements, bodies and instructions","src/hir_parser.rs parser"),("recovery of the tokenizer","src/hir_tokenizer.rs tokenizer")],[],["all document requests","publishDiagnostics"]),
p("C10","Go-to-definition and go-to-declaration are exact",
 "For every position, go-to-definition returns exactly the definitions in the document of the symbol under the cursor (global variables, functions, debug annotations, and the locals and labels of the enclosing function) and go-to-declaration exactly its declarations, with the range of the symbol under the cursor as origin. If there is no symbol at the position or it has no definition (declaration), the result is empty; for functions, external sources named by debug annotations are definitions as well.",
 ["inputs"],"all texts and all positions in them",
 "test_index checks the occurrence lists of one document; it never asks for a position.",
 ["src/hir_index.rs",M],
 [("index of uses, definitions, declarations","src/hir_index.rs create_index"),("find_symbol_at_position","src/hir_index.rs"),("goto_definition, goto_declaration","src/main.rs")],
 [("symbol_occs, use-def lists","occurrences by position and by name","src/hir_index.rs HIRIndex")],["textDocument/definition","textDocument/declaration"]),
p("C11","Find-references returns every use of a symbol, and only those",
 "For every position on an occurrence of a symbol (use, definition or declaration), find-references returns exactly the uses of that symbol in the document, each once with its exact range; occurrences with the same spelling that denote another symbol (a different kind, or a local of another function) are not included. Positions without a symbol have no references.",
 ["inputs"],"all texts and all positions in them",
 "test_index covers one document; completeness over all syntactic places where a symbol can be used cannot be sampled.",
 ["src/hir_index.rs",M],
 [("create_index visits all tokens and statements","src/hir_index.rs create_index"),("references","src/main.rs references, get_use_def_ranges")],
 [("use-def lists","occurrences by name","src/hir_index.rs HIRIndex")],["textDocument/references"]),
p("C12","Locals and labels belong to their function",
 "Local variables (`%`, arguments included) and labels are scoped to one function: navigation, references, rename, renumbering, branch targets, undefined and duplicate diagnostics for them never see a same-named local or label of another function. Within the function they are complete: all occurrences in its signature and body are the same symbol.",
 ["inputs"],"all documents with any number of function definitions and declarations that share names of locals and labels",
 "test_index has a single document with two functions; isolation must hold for every pair of functions, including malformed and nested neighbours.",
 ["src/hir_index.rs","src/rename.rs",M],
 [("per-function tables of locals and labels","src/hir_index.rs add_func_local, get_by_symbol_kind")],
 [("function_bodies","locals and labels of each function","src/hir_index.rs FunctionBody")],["definition, references, rename, codeAction, publishDiagnostics, hyperir/showDot"]),
p("C13","Rename edits all occurrences of one symbol and nothing else",
 "Renaming produces exactly one edit for each occurrence (definition, declaration and use) of the symbol under the cursor, replacing precisely the name, so that applying it yields a document in which the same occurrences carry the new name and nothing else changed. New names which are no valid name of the symbol's kind are rejected with an error and without edits, and prepare-rename returns the exact range of the symbol, or nothing if there is none to rename.",
 ["inputs","histories"],"all texts, positions and new names, and chains of renames applied one after another",
 "No test calls rename; test_extract_number checks a few identifiers.",
 [M,"src/rename.rs","src/hir_index.rs"],
 [("get_rename_edits","src/rename.rs"),("validation of the new name","src/main.rs rename"),("prepare_rename","src/main.rs")],[],["textDocument/rename","textDocument/prepareRename"]),
p("C14","Relative renumbering shifts exactly the symbols from the chosen number on",
 "Renaming a numbered symbol to `+n` or `-n`, and the code action `Shift ... numbering` (by one), add the offset to the number of every symbol of the same kind and scope whose number is at least the chosen one, keep each symbol's prefix, and touch nothing else; the arithmetic is exact for all 64-bit numbers (a number shifted below zero loses its sign), and offsets that are no number and symbols without number are rejected. The code action is offered exactly on numbered symbols, and computing its edit eagerly or by resolving it later (against the then current text) gives the same edit.",
 ["inputs","histories","configurations"],"all texts, positions, ranges and offsets, with and without lazy resolving, also after edits in between",
 "test_extract_number covers a few identifiers; shifting, scopes, 64-bit limits, and lazy resolving are untested.",
 ["src/rename.rs",M],
 [("get_shift_edits, extract_number_from_identifier","src/rename.rs"),("code_action, do_code_action_resolve","src/main.rs")],
 [("data of a code action","document, kind, function and number to shift from","src/main.rs code_action")],["textDocument/rename","textDocument/codeAction","codeAction/resolve"]),
p("C15","Control flow graph and block hints show exactly the branches",
 "The graph that `visualize-cfg` shows has exactly one edge for each pair of basic blocks of the function connected by a branch (conditional, switch and overflow-checking ones included), identified by their labels, and is shown once per command under the function's name. The inlay hints at each block list exactly its predecessors in the order of their labels in the text, linked to their places, and a hint at the end of each function body names the function and links to it.",
 ["inputs"],"all functions with any blocks, branch instructions and targets, including undefined, repeated and self targets",
 "test_parse_basicblock_refs checks the targets of a few instructions; neither graph nor hints are tested.",
 ["src/control_flow_graph.rs","src/hir_parser.rs","src/hir_index.rs",M],
 [("create_cfg_dot_visualization","src/control_flow_graph.rs"),("branch targets of instructions","src/hir_parser.rs"),("inlay_hint","src/main.rs")],
 [("FunctionBody","blocks and their branch targets","src/hir_index.rs")],["hyperir/showDot","textDocument/inlayHint"]),
p("C16","Undefined, duplicate and broken-branch diagnostics are exact",
 "A text gets an `undefined symbol` error for exactly those uses whose symbol has neither definition nor declaration in scope, an `already defined` error for exactly every definition of a symbol beyond its first (pointing to the first), and an error for exactly those branching and `phi` instructions from which no label can be read. Each is reported once, as an error, at the exact range of the occurrence.",
 ["inputs"],"all texts, all kinds of symbols, any number and order of definitions, declarations and uses",
 "No test computes semantic diagnostics.",
 ["src/diagnostics.rs","src/hir_index.rs"],
 [("diagnostics_from_index, diagnostics_from_statements","src/diagnostics.rs"),("create_index","src/hir_index.rs")],[],["publishDiagnostics"]),
p("C17","Outline, folding ranges and code lenses mirror the document's structure",
 "The document outline lists exactly the definitions of global variables and the functions with a body, with their kind and exact ranges; there is one folding range for each function body and each basic block, with the number of blocks or instructions it contains; and there is a code lens at exactly the functions that are defined once, whose command visualizes that function of that document. Nothing is missing, repeated or invented, whatever the order, duplicates or errors around.",
 ["inputs"],"all texts",
 NOLSP,[M,"src/hir_index.rs"],
 [("document_symbol","src/main.rs"),("folding_range","src/main.rs"),("code_lens","src/main.rs")],[],["textDocument/documentSymbol","textDocument/foldingRange","textDocument/codeLens"]),
p("C18","Positions are exact in UTF-16 units in both directions",
 "All positions the server receives and sends are interpreted as zero-based line and UTF-16 code unit as LSP demands, for texts with multi-byte characters, surrogate pairs, tabs, empty lines, `\\n` and `\\r\\n` line ends and with or without a final line end. A range in an answer, applied to the client's text, covers precisely the name or construct it is about, and any position on the name denotes that symbol, while positions behind the name or beyond the end of a line do not.",
 ["inputs"],"all texts and all positions, on and off symbols",
 "All texts of the tests are ASCII with `\\n`, and offsets are never converted to positions in a test.",
 ["src/lsp_utils.rs","src/semantic_token.rs",M],
 [("lsp_pos_to_offset, offset_to_lsp_pos, range_to_lsp","src/lsp_utils.rs"),("convert_to_lsp_tokens","src/semantic_token.rs")],[],["all responses","publishDiagnostics"]),
p("C19","External definitions and backtraces resolve to the right source files",
 "For a function whose declaration carries a debug annotation that names a source file and line, go-to-definition leads to that line of that file in the first workspace folder which contains it, and to nothing if none does; this holds wherever the annotation stands, for all declarations that share it, and `.` and `..` in the path are resolved. For an instruction with a debug annotation, the inlay hint names the most relevant frame of the annotation's backtrace and links it, and the full backtrace, to existing files in the same way; annotations that are no valid backtrace yield no hint.",
 ["inputs","configurations"],"all declarations, debug annotations (any JSON), file trees and workspace folder configurations (several, missing, odd URIs)",
 "parse_* tests check four hand-written backtraces with fixed roots; the choice of the frame, file lookup and hints over any folder layout are not tested.",
 ["src/backtrace.rs",M,"src/hir_index.rs"],
 [("resolve_relative_path","src/backtrace.rs"),("parse_backtrace_from_json, identify_relevant_frames, inlay_hint_for_backtrace","src/backtrace.rs"),("goto_definition of external functions","src/main.rs get_use_def_ranges")],
 [("root_paths","workspace folders","src/main.rs Backend")],["textDocument/definition","textDocument/inlayHint"]),
p("C20","The editor extension launches the server and shows every graph it is asked for",
 "The VS Code extension launches the server named by `SERVER_PATH`, or else the one shipped in its own folder, in run and debug mode alike, with the environment inherited, for all `.hir` documents. Each `hyperir/showDot` request of the server is passed to the Graphviz preview with exactly its graph and title; if that fails, exactly this graph is opened and shown in a text editor instead. The request is acknowledged once - successfully only when its own graph has been shown, with an error if it could not be shown at all, and after an error message if it carries no graph - regardless of other requests in flight and of the failures before it. Deactivating stops the server exactly once and is complete only when the server has stopped (and does nothing if there is none).",
 ["schedules","histories","inputs"],"all numbers and interleavings of requests, outcomes of the editor's calls, graphs and titles, and environments",
 "The extension has no tests at all; what it does depends on the order in which the editor's answers to several requests arrive.",
 ["vscode-extension/src/extension.ts"],
 [("activate: server options, document selector, start","vscode-extension/src/extension.ts activate"),("handler of hyperir/showDot with its fallback","vscode-extension/src/extension.ts activate"),("deactivate","vscode-extension/src/extension.ts deactivate")],
 [("client","the language client, once activated","vscode-extension/src/extension.ts")],["calls of the extension to the editor and its client library","acknowledgements"]),
]
with open(ROOT+'/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
TECH={}
checks=[]
LOOPS={"C02","C04","C05","C06"}
for x in P:
    i=x["id"]
    t="TLA+ specification checked with TLC; behaviours generated by TLC replayed on the server, and traces of the server validated against the specification by TLC"
    note="The specification's answer is compared with every answer of the real server: exhaustively for all documents/histories up to the model's bound (quick: sampled above it), and on random larger ones. Trusted: the normalisation of messages and the JSON parser of the harness, and that the specification states the intended behaviour (its own consistency is model checked)."
    if i in LOOPS: note+=" The event loop model (ServerLoop.tla) shows that ordering, liveness and linearisation hold for all schedules within its bounds."
    if i=="C20": note="Extension.tla states for every event of the extension whether it may happen. All schedules with two requests (TLC) and sampled ones with three are replayed on the real TypeScript code in a stand-in of the editor, and TLC validates every recorded event; one schedule per shard runs end to end with the real server. Trusted: the stand-in (ext/host.js)."
    if i=="C20": t="TLA+ specification checked with TLC; schedules generated by TLC replayed on the extension, and the recorded calls validated against the specification by TLC"
    checks.append(dict(property=i,quick_cmd="python3 harness/check.py %s quick"%i,thorough_cmd="python3 harness/check.py %s thorough"%i,technique=t,level="model_checking",level_note=note))
json.dump(dict(version=1,setup_cmd="python3 harness/setup.py",checks=checks,not_applicable=[],notes="No hooks: the checks observe the server through LSP only."),open(ROOT+'/MANIFEST.json','w'),indent=1)
