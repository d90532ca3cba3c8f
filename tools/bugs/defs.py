BUGS=[]
def bug(id,property,needs,breaks,edits,case,count=1):
    BUGS.append(dict(id=id,property=property,needs=needs,breaks=breaks,edits=edits,case=case,count=count))
U='u = "file:///d/a.hir"'
bug("c10-first-char","C10","the cursor exactly on the first character of a name","go-to-definition (and every feature that looks up a symbol) finds nothing on the first character of a name",
 [("src/hir_index.rs","""        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
""","""        self.reverse_idx
            .range(..pos)
            .next_back()
            .map(|e| e.1)
            .filter(|e| e.span.contains(&pos))
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@h = @g\\n")
    d.eq(c.defs(u, 1, 6), [(u, (0, 0, 0, 2))])
    d.eq(c.defs(u, 1, 5), [(u, (0, 0, 0, 2))])
    c.stop()
''')
bug("c10-big-index","C10","a document with more than 64 symbol occurrences and the cursor on the first character of a name","symbol lookup in larger documents misses the first character of names",
 [("src/hir_index.rs","""        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
""","""        if self.reverse_idx.len() > 64 {
            // Avoid the linear scan for larger documents
            return self
                .reverse_idx
                .range(..pos)
                .next_back()
                .map(|e| e.1)
                .filter(|e| e.span.contains(&pos));
        }
        self.reverse_idx
            .iter()
            .map(|e| e.1)
            .find(|e| e.span.contains(&pos))
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n" + "".join("@h%d = @g\\n" % i for i in range(80)))
    d.eq(c.defs(u, 1, 7), [(u, (0, 0, 0, 2))])
    d.eq(c.defs(u, 1, 6), [(u, (0, 0, 0, 2))])
    c.stop()
''')
bug("c12-after-body","C12","a declaration (or malformed text) with a local name behind a function that has a local of the same name","locals outside of any function are attributed to the preceding function",
 [("src/hir_index.rs","""                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0);
""","""                    func_body_id = index
                        .function_bodies
                        .iter()
                        .enumerate()
                        .find(|(_, e)| e.complete_range.contains(&t.1.start))
                        .map(|t| t.0)
                        .or(func_body_id);
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f(int32 %a) {\\n  ret %a\\n}\\ndeclare void @g(int32 %a)\\n")
    d.eq(c.refs(u, 0, 21), [(1, 6, 1, 8)])
    c.stop()
''')
bug("c16-once-per-name","C16","the same undefined name used in two functions (or as two kinds of symbol)","an undefined local or label is reported in one function only",
 [("src/diagnostics.rs","""    all_use_defs
        .filter_map(move |(name, ud)| {""","""    let mut reported = std::collections::HashSet::<&String>::new();
    all_use_defs
        .filter_map(move |(name, ud)| {"""),
  ("src/diagnostics.rs","if ud.decls.is_empty() && ud.defs.is_empty() {","if ud.decls.is_empty() && ud.defs.is_empty() {\n                if !reported.insert(name) {\n                    return None;\n                }")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n  ret %x\\n}\\ndefine void @g() {\\n  ret %x\\n}\\n")
    d.eq(sorted(d.rng(x["range"]) for x in c.diags()["diagnostics"]), [(1, 6, 1, 8), (4, 6, 4, 8)])
    c.stop()
''')
bug("c15-incoming-name","C15","two blocks with the same label which branch to the same block","of two equally named predecessors only one is listed by the incoming hint",
 [("src/hir_index.rs","if !incoming_list.contains(label) {","if !incoming_list.iter().any(|l| l.0 == label.0) {")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  br x\\na:\\n  br x\\nx:\\n  ret\\n}\\n")
    h = [h for h in c.hints(u) if h["label"][0]["value"] == "incoming: "]
    d.eq([p["value"] for p in h[0]["label"]], ["incoming: ", "a", ", ", "a"])
    c.stop()
''')
bug("c15-switch-default-only","C15","a switch without cases","the default target of a switch without cases is lost: no edge, no hint, and a bogus diagnostic",
 [("src/hir_parser.rs","""                .ignore_then(ident)
                .separated_by(just(Token::Punctuation(','))),
        )
        .then(dbg_ref.or_not())""","""                .ignore_then(ident)
                .separated_by(just(Token::Punctuation(',')))
                .at_least(1),
        )
        .then(dbg_ref.or_not())""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  switch int32 %v, default=b,\\nb:\\n  ret\\n}\\n")
    d.eq(c.graph(u, "@f"), ['"a" -> "b"'])
    c.stop()
''')
bug("c15-branch-list","C15","an overflow-checking branch instruction other than the common ones","branches of e.g. `sdivbr` are missing in the graph",
 [("src/hir_parser.rs","""        self.instruction.0.ends_with("br") || self.instruction.0 == "switch"
""","""        matches!(
            self.instruction.0.as_str(),
            "br" | "switch" | "saddbr" | "ssubbr" | "smulbr" | "uaddbr" | "usubbr" | "umulbr"
        )
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  sdivbr int32 1, int32 2, cont=a, overflow=b\\nb:\\n  ret\\n}\\n")
    d.eq(c.graph(u, "@f"), ['"a" -> "a"', '"a" -> "b"'])
    c.stop()
''')
bug("c13-one-decl","C13","a function with more than one declaration","rename leaves further declarations with the old name",
 [("src/rename.rs","""        .decls
        .iter()
        .chain""","""        .decls
        .first()
        .into_iter()
        .chain""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "declare void @f()\\ndeclare void @f()\\n")
    d.eq(c.rename(u, 0, 14, "@g"), [((0, 13, 0, 15), "@g"), ((1, 13, 1, 15), "@g")])
    c.stop()
''')
bug("c13-many-prefixes","C13","a new name with a repeated prefix","`@@x` is accepted as new name instead of being rejected",
 [("src/main.rs","""            if let Some(stripped) = new_name.strip_prefix(prefix) {
                new_name = stripped.to_string();
            }
""","""            if !prefix.is_empty() {
                new_name = new_name.trim_start_matches(prefix).to_string();
            }
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n")
    d.eq(c.rename(u, 0, 1, "@@x"), "error")
    c.stop()
''')
bug("c14-truncate","C14","numbers of which some do not fit into 32 bits","relative renumbering compares truncated numbers and shifts the wrong symbols",
 [("src/rename.rs","            if nr < renamed_nr {","            if (nr as i32) < (renamed_nr as i32) {")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g1 = 1\\n@g5 = 1\\n@g4294967298 = 1\\n")
    d.eq(c.rename(u, 1, 1, "+1"), [((1, 0, 1, 3), "@g6"), ((2, 0, 2, 12), "@g4294967299")])
    c.stop()
''')
bug("c01-lazy-any-property","C01","a client that resolves only other properties of code actions than `edit`","the server leaves out the edit of code actions although the client cannot resolve it",
 [("src/main.rs","""                    .map(|c| c.properties.contains(&"edit".to_string()))
                    .unwrap_or(false);""","""                    .map(|c| !c.properties.is_empty())
                    .unwrap_or(false);""")],'''
def case(d):
    ca = {"resolveSupport": {"properties": ["command"]}, "dataSupport": True}
    c = d.Client({"processId": None, "rootUri": None, "capabilities": {"textDocument": {"codeAction": ca}}})
    d.eq(c.caps["capabilities"]["codeActionProvider"].get("resolveProvider"), False)
    c.stop()
''')
bug("c14-eager-nodata","C14","a client that can resolve edits but does not support `data`","the code action comes without edit although the client cannot resolve it",
 [("src/main.rs","                supports_resolve && supports_data","                supports_resolve || supports_data")],'''
def case(d):
    ca = {"resolveSupport": {"properties": ["edit"]}}
    c = d.Client({"processId": None, "rootUri": None, "capabilities": {"textDocument": {"codeAction": ca}}})
    u = "file:///d/a.hir"
    c.open(u, "@g1 = 1\\n")
    p = {"line": 0, "character": 1}
    r = c.doc("codeAction", u, range={"start": p, "end": p}, context={"diagnostics": []})
    assert r[0].get("edit"), "no edit"
    c.stop()
''')
bug("c07-multiline","C07","a string that spans lines, followed by another token","tokens behind a multi-line string are shifted by some lines",
 [("src/semantic_token.rs","            pre_line = line;","            pre_line = offset_to_lsp_pos(rope, token.start + token.length)?.line;")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, '@g = "a\\nb" 7\\n@h = 8\\n')
    d.eq([t[:2] for t in c.tokens(u)], [(0, 0), (0, 5), (1, 3), (2, 0), (2, 5)])
    c.stop()
''')
bug("c07-escape","C07","a string that ends with a backslash","a backslash in front of the closing quote swallows it",
 [("src/hir_tokenizer.rs","""        .ignore_then(filter(|c| *c != '"').repeated())""","""        .ignore_then(
            just('\\\\\\\\')
                .ignore_then(just('"'))
                .or(filter(|c| *c != '"'))
                .repeated(),
        )""".replace("\\\\\\\\","\\\\"))],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, '@g = "C:\\\\" 7\\n@h = 8\\n')
    d.eq(c.tokens(u), [(0, 0, 2), (0, 5, 5), (0, 11, 1), (1, 0, 2), (1, 5, 1)])
    c.stop()
''')
bug("c17-lens-dup","C17","a function that is defined twice","a function with several definitions gets a code lens",
 [("src/main.rs","if let [def_range] = &f.1.defs[..] {","if let [def_range, ..] = &f.1.defs[..] {")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n}\\ndefine void @f() {\\n}\\n")
    d.eq(c.doc("codeLens", u), [])
    c.stop()
''')
bug("c17-outline-dup","C17","a global variable that is defined twice","the outline shows a global variable once although it is defined several times",
 [("src/main.rs","f.1.defs.iter().filter_map(move |def| {","f.1.defs.iter().take(1).filter_map(move |def| {")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@g = 2\\n")
    d.eq(sorted(d.rng(s["range"]) for s in c.doc("documentSymbol", u)), [(0, 0, 0, 2), (1, 0, 1, 2)])
    c.stop()
''')
bug("c02-same-length","C02","an edit that keeps the length and number of lines of the document","a text of the same size as the previous one is ignored",
 [("src/main.rs","""        let src = rope.to_string();

        let ParserResult {""","""        let src = rope.to_string();
        let known_doc = self.document_map.get(&params.uri.to_string()).map(|doc| {
            (doc.rope.len_bytes(), doc.rope.len_lines())
                == (rope.len_bytes(), rope.len_lines())
                && doc.rope.chars().zip(rope.chars()).take(64).all(|(a, b)| a == b)
        });

        let ParserResult {"""),
  ("src/main.rs","""        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
        );
""","""        if known_doc != Some(true) {
            self.document_map.insert(
                params.uri.to_string(),
                AnalyzedDocument {
                    rope,
                    semantic_tokens,
                    stmts,
                    index,
                },
            );
        }
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    pre = "# " + "x" * 80 + "\\n"
    c.open(u, pre + "@g = 1\\n@h = @g\\n")
    c.change(u, pre + "@h = 1\\n@g = @i\\n", 2)
    d.eq(c.defs(u, 2, 6), [])
    d.eq(c.refs(u, 2, 1), [])
    c.stop()
''')
bug("c02-publish-first","C02","several texts and requests sent without waiting for the diagnostics","the text is stored only after its diagnostics were handed to the client: a request sent behind an edit may see the old text",
 [("src/main.rs","""        self.document_map.insert(
            params.uri.to_string(),""","""        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;

        self.document_map.insert(
            params.uri.to_string(),"""),
  ("src/main.rs","""        );

        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;
    }
""","""        );
    }
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n")
    for k in range(30):
        us = ["file:///d/x%d.hir" % j for j in range(4)]
        for x in us:
            c.open(x, "@g = 1\\n", k) if k == 0 else c.change(x, "@g = 1\\n", k)
        t = "\\n" * (k + 1) + "@g = 1\\n"
        c.change(u, t, k + 2)
        r = c.req("textDocument/documentSymbol", {"textDocument": {"uri": u}})
        d.eq(r and r[0]["range"]["start"]["line"], k + 1)
    c.stop()
''')
bug("c02-stale-annotations","C02","an edit that removes all debug annotations but not their uses","backtrace hints of removed annotations survive the edit",
 [("src/main.rs","""        let index = create_index(&src, &tokens, &stmts);
""","""        let mut index = create_index(&src, &tokens, &stmts);
        if index.dgb_annotation_values.is_empty() {
            // Keep the backtraces while the user edits the annotations
            if let Some(old) = self.document_map.get(&params.uri.to_string()) {
                index.dgb_annotation_values = old.index.dgb_annotation_values.clone();
            }
        }
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    f = "define void @f() {\\n  ret !1\\n}\\n"
    c.open(u, f + '!1 = {"backtrace":[["a","b:1"]]}\\n')
    d.eq(len(c.hints(u)), 2)
    c.change(u, f, 2)
    d.eq(len(c.hints(u)), 1)
    c.stop()
''')
bug("c03-lookup-cache","C03","the same position requested in two documents without an edit in between","an answer about one document is reused for another one",
 [("src/main.rs","""    document_map: DashMap<String, AnalyzedDocument>,
}
""","""    document_map: DashMap<String, AnalyzedDocument>,
    last_lookup: Mutex<Option<(Position, UseDefKind, Range, Vec<Location>)>>,
}
"""),
  ("src/main.rs","""        document_map: DashMap::new(),
""","""        document_map: DashMap::new(),
        last_lookup: Default::default(),
"""),
  ("src/main.rs","""        let doc = self.document_map.get(&uri_str)?;

        // Lookup the symbol at the given location""","""        let doc = self.document_map.get(&uri_str)?;
        if let Some((p, k, origin, locs)) = &*self.last_lookup.lock().unwrap() {
            if *p == pos.position && *k == ud && !locs.is_empty() {
                return Some((*origin, locs.clone()));
            }
        }

        // Lookup the symbol at the given location"""),
  ("src/main.rs","""        Some((origin_selection_range, ranges))
""","""        *self.last_lookup.lock().unwrap() =
            Some((pos.position, ud, origin_selection_range, ranges.clone()));
        Some((origin_selection_range, ranges))
"""),
  ("src/main.rs","""        let rope = ropey::Rope::from_str(&params.text);
""","""        *self.last_lookup.lock().unwrap() = None;
        let rope = ropey::Rope::from_str(&params.text);
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"; v = "file:///d/b.hir"
    c.open(u, "@g = 1\\n@h = @g\\n")
    c.open(v, "@h = 1\\n@g = @h\\n")
    d.eq(c.defs(u, 1, 6), [(u, (0, 0, 0, 2))])
    d.eq(c.defs(v, 1, 6), [(v, (0, 0, 0, 2))])
    c.stop()
''')
bug("c04-skip-empty","C04","a text without problems (as the first text, or behind another one without problems)","no diagnostics are published for texts without problems",
 [("src/main.rs","""        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {""","""        let had_problems = self.problems.insert(params.uri.to_string(), !diagnostics.is_empty());
        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {"""),
  ("src/main.rs","""        self.client
            .publish_diagnostics(params.uri""","""        if diagnostics.is_empty() && had_problems == Some(false) {
            return;
        }
        self.client
            .publish_diagnostics(params.uri"""),
  ("src/main.rs","""    document_map: DashMap<String, AnalyzedDocument>,
}
""","""    document_map: DashMap<String, AnalyzedDocument>,
    problems: DashMap<String, bool>,
}
"""),
  ("src/main.rs","""        document_map: DashMap::new(),
""","""        document_map: DashMap::new(),
        problems: DashMap::new(),
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    for k in range(3):
        c.change(u, "@g = 1\\n", k) if k else c.open(u, "@g = 1\\n", k)
        d.eq(c.diags(5)["version"], k)
    c.stop()
''')
bug("c04-old-version","C04","a document which is closed and opened again with a lower version","a reopened document keeps its old text and gets no diagnostics if its version restarts",
 [("src/main.rs","""        let rope = ropey::Rope::from_str(&params.text);
""","""        // Ignore outdated versions
        let newest = *self
            .versions
            .entry(params.uri.to_string())
            .and_modify(|v| *v = params.version.max(*v))
            .or_insert(params.version);
        if params.version < newest {
            return;
        }
        let rope = ropey::Rope::from_str(&params.text);
"""),
  ("src/main.rs","""    document_map: DashMap<String, AnalyzedDocument>,
}
""","""    document_map: DashMap<String, AnalyzedDocument>,
    versions: DashMap<String, i32>,
}
"""),
  ("src/main.rs","""        document_map: DashMap::new(),
""","""        document_map: DashMap::new(),
        versions: DashMap::new(),
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n", 1)
    c.diags(); c.change(u, "@g = @x\\n", 2); c.diags()
    c.close(u)
    c.open(u, "@h = 1\\n", 1)
    d.eq(c.diags(5)["version"], 1)
    c.stop()
''')
bug("c04-spawned","C04","several texts sent in a burst","diagnostics are published by tasks of their own, so that those of an older text may arrive last",
 [("src/main.rs","""        self.client
            .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
            .await;
""","""        let client = self.client.clone();
        let quiet = diagnostics.is_empty();
        tokio::spawn(async move {
            if !quiet {
                // Don't distract while the user is still typing
                tokio::time::sleep(std::time::Duration::from_millis(2)).await;
            }
            client
                .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
                .await;
        });
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n", 0)
    for k in range(1, 30):
        c.change(u, "@g = 1\\n" if k % 2 == 0 else "@g = @x\\n", k)
    d.eq([c.diags(5)["version"] for _ in range(30)], list(range(30)))
    c.stop()
''')
bug("c05-serial","C05","a graph which the client has not acknowledged yet while it sends another request","only one message is handled at a time: everything waits for the acknowledgement of the graph",
 [("src/main.rs","Server::new(stdin, stdout, socket).serve(service).await;","Server::new(stdin, stdout, socket)\n        .concurrency_level(1)\n        .serve(service)\n        .await;")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  br a\\n}\\n")
    c.start("workspace/executeCommand", {"command": "visualize-cfg", "arguments": [u, "@f"]})
    c.get(lambda m: m.get("method") == "hyperir/showDot")
    i = c.start("textDocument/foldingRange", {"textDocument": {"uri": u}})
    c.answer(i, 5)
    c.stop()
''')
bug("c05-edit-waits","C05","an edit while a graph waits for the client's acknowledgement","edits wait until the client has acknowledged all graphs",
 [("src/main.rs","""    document_map: DashMap<String, AnalyzedDocument>,
}
""","""    document_map: DashMap<String, AnalyzedDocument>,
    graph_lock: tokio::sync::RwLock<()>,
}
"""),
  ("src/main.rs","""        document_map: DashMap::new(),
""","""        document_map: DashMap::new(),
        graph_lock: Default::default(),
"""),
  ("src/main.rs","""    async fn execute_command(&self, params: ExecuteCommandParams) -> Result<Option<Value>> {
""","""    async fn execute_command(&self, params: ExecuteCommandParams) -> Result<Option<Value>> {
        // The document must not change while we show its graph
        let _guard = self.graph_lock.read().await;
"""),
  ("src/main.rs","""        let rope = ropey::Rope::from_str(&params.text);
""","""        let _guard = self.graph_lock.write().await;
        let rope = ropey::Rope::from_str(&params.text);
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  br a\\n}\\n")
    c.diags()
    c.start("workspace/executeCommand", {"command": "visualize-cfg", "arguments": [u, "@f"]})
    c.get(lambda m: m.get("method") == "hyperir/showDot")
    c.change(u, "@g = 1\\n", 2)
    d.eq(c.diags(5)["version"], 2)
    c.stop()
''')
bug("c06-reversed-range","C06","a code action request for a range whose end lies before its start","the server panics",
 [("src/main.rs","""        if range.start != range.end {
            return Ok(None);
        }
""","""        if range.start != range.end {
            let start = lsp_pos_to_offset(&doc.rope, &range.start);
            let end = lsp_pos_to_offset(&doc.rope, &range.end);
            if let (Some(start), Some(end)) = (start, end) {
                log::debug!("no action for `{}`", doc.rope.slice(start..end));
            }
            return Ok(None);
        }
""".replace("log::debug!(\"no action for `{}`\", doc.rope.slice(start..end));","let _selection = doc.rope.slice(start..end);"))],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g1 = 1\\n")
    c.doc("codeAction", u, range={"start": {"line": 0, "character": 3}, "end": {"line": 0, "character": 1}}, context={"diagnostics": []})
    c.hints(u)
    c.stop()
''')
bug("c08-per-line","C08","two errors in the same line","only the first syntax error of each line is reported",
 [("src/diagnostics.rs","""    errors.iter().filter_map(move |item| {
""","""    let mut last_line = None;
    errors.iter().filter_map(move |item| {
        // Report the first error in each line only
        let line = rope.try_char_to_line(item.span().start).ok();
        if line.is_some() && line == last_line {
            return None;
        }
        last_line = line;
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = $ 1 $\\n")
    d.eq(len(c.diags()["diagnostics"]), 2)
    c.stop()
''')
bug("c10-decl-fallback","C10","go-to-declaration on a symbol without declaration","go-to-declaration returns definitions",
 [("src/main.rs","self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Decl)?;","self.get_use_def_ranges(&params.text_document_position_params, UseDefKind::Decl)?;\n            if locations.is_empty() {\n                locations = self\n                    .get_use_def_ranges(&params.text_document_position_params, UseDefKind::Def)?\n                    .1;\n            }")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@h = @g\\n")
    d.eq(c.defs(u, 1, 6, "declaration"), [])
    c.stop()
''')
bug("c18-crlf","C18","a document with CR LF line ends","positions drift by one character per line in documents with CR LF",
 [("src/main.rs","""        let src = rope.to_string();
""","""        let src = rope.to_string().replace("\\r\\n", "\\n");
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\r\\n@h = @g\\r\\n")
    d.eq(c.defs(u, 1, 6), [(u, (0, 0, 0, 2))])
    d.eq(c.refs(u, 0, 1), [(1, 5, 1, 7)])
    c.stop()
''')
bug("c19-last-root","C19","two workspace folders which contain the same file","files are resolved in the last instead of the first workspace folder",
 [("src/backtrace.rs","root_paths.iter().find_map(|baseuri| {","root_paths.iter().rev().find_map(|baseuri| {")],'''
import os, tempfile, shutil, pathlib
def case(d):
    t = tempfile.mkdtemp()
    try:
        for x in ("r1", "r2"):
            os.mkdir(t + "/" + x)
            open(t + "/" + x + "/a.cpp", "w").close()
        fs = [{"uri": pathlib.Path(t, x).as_uri(), "name": x} for x in ("r1", "r2")]
        c = d.Client({"processId": None, "rootUri": None, "capabilities": {}, "workspaceFolders": fs}); u = "file:///d/a.hir"
        c.open(u, 'declare void @f() !1\\n!1 = "a.cpp:3"\\n')
        d.eq(c.defs(u, 0, 14), [(fs[0]["uri"] + "/a.cpp", (2, 0, 2, 0))])
        c.stop()
    finally:
        shutil.rmtree(t)
''')
bug("c19-preference","C19","a backtrace in which a less relevant translator frame comes before a more relevant one","the hint names the first matching frame rather than the most relevant one",
 [("src/backtrace.rs","""    for pref in symbol_preferences {
        let pref_frame = frames.iter().position(|f| f.symbol.contains(pref));
        if pref_frame.is_some() {
            return pref_frame;
        }
    }
""","""    let pref_frame = frames
        .iter()
        .position(|f| symbol_preferences.iter().any(|pref| f.symbol.contains(pref)));
    if pref_frame.is_some() {
        return pref_frame;
    }
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, 'define void @f() {\\n  ret !1\\n}\\n!1 = {"backtrace":[["Translator::x","a:1"],["Translator::consume","b:2"]]}\\n')
    h = [h for h in c.hints(u) if h["label"][-1]["value"] == "Full backtrace"]
    d.eq(h[0]["label"][0]["value"], "Translator::consume")
    c.stop()
''')
bug("c11-depends","C11","a dependency on a name that is not declared or defined as function","names in `depends on` become functions, and their uses as global variables get lost",
 [("src/hir_index.rs","            Statement::FuncDependencies { .. } => {}","""            Statement::FuncDependencies {
                dependent: _,
                dependencies,
            } => {
                for dep in dependencies {
                    index.add_global_spanned(SymbolKind::Function, UseDefKind::Use, dep);
                }
            }""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\ndeclare void @f()\\n@f depends on @g\\n@h = @g\\n")
    d.eq(c.refs(u, 0, 1), [(2, 14, 2, 16), (3, 5, 3, 7)])
    c.stop()
''')
bug("c16-phi","C16","a phi instruction from which no label can be read","broken phi instructions are not reported",
 [("src/diagnostics.rs","""if (i.is_branching() || inst_name == "phi") && i.basic_block_refs.is_empty() {""","""if (i.is_branching() || (inst_name == "phi" && i.assignment_target.is_some()))
                && i.basic_block_refs.is_empty()
            {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n  phi x\\n}\\n")
    d.eq(len(c.diags()["diagnostics"]), 1)
    c.stop()
''')
bug("c01-extra-args","C01","a visualize-cfg command with more than two arguments","commands with superfluous arguments are executed instead of being rejected",
 [("src/main.rs","""("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {""","""("visualize-cfg", [Value::String(doc_uri), Value::String(func_name), ..]) => {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  br a\\n}\\n")
    i = c.start("workspace/executeCommand", {"command": "visualize-cfg", "arguments": [u, "@f", 1]})
    d.eq(c.answer(i, 5)["error"]["code"], -32602)
    c.stop()
''')
# --- second wave -------------------------------------------------------------------------------------
bug("c03-path-key","C03","two open documents whose URIs differ only in the scheme, host, query or fragment","documents with the same path (e.g. the two sides of a diff view) overwrite each other",
 [("src/main.rs","""        self.document_map.insert(
            params.uri.to_string(),""","""        self.document_map.insert(
            document_key(&params.uri.to_string()),"""),
  ("src/main.rs","""            let doc = self.document_map.get(&uri)?;
            let lsp_tokens""","""            let doc = self.document_map.get(&document_key(&uri))?;
            let lsp_tokens"""),
  ("src/main.rs","self.document_map.get(&uri_str)?","self.document_map.get(&document_key(&uri_str))?"),
  ("src/main.rs","self.document_map.get(&uri)?","self.document_map.get(&document_key(&uri))?"),
  ("src/main.rs",".get(&uri_str)\n",".get(&document_key(&uri_str))\n"),
  ("src/main.rs",".get(&uri.to_string())",".get(&document_key(&uri.to_string()))"),
  ("src/main.rs","self.document_map.get(doc_uri).ok_or_else","self.document_map.get(&document_key(doc_uri)).ok_or_else"),
  ("src/main.rs","struct TextDocumentItem {","""/// The key of a document: without the parts which do not identify a file
fn document_key(uri: &str) -> String {
    uri.split(['?', '#']).next().unwrap_or(uri).to_string()
}

struct TextDocumentItem {""")],'''
def case(d):
    c = d.Client()
    a, b = "git:/w/a.hir?ref=HEAD", "git:/w/a.hir?ref=main"
    c.open(a, "@g = 1\\n@h = @g\\n")
    d.eq(c.refs(a, 0, 0), [(1, 5, 1, 7)])
    c.open(b, "@g = 1\\n")
    d.eq(c.refs(b, 0, 0), [])
    d.eq(c.refs(a, 0, 0), [(1, 5, 1, 7)])
    c.stop()
''',count=99)
bug("c04-unchanged","C04","an edit after which the diagnostics are the same as before","no diagnostics are published for the new version if they equal those published last",
 [("src/main.rs","""    document_map: DashMap<String, AnalyzedDocument>,
}""","""    document_map: DashMap<String, AnalyzedDocument>,
    published: DashMap<String, Vec<Diagnostic>>,
}"""),
  ("src/main.rs","        document_map: DashMap::new(),","        document_map: DashMap::new(),\n        published: DashMap::new(),"),
  ("src/main.rs","""        self.client
            .publish_diagnostics(""","""        // Nothing to do if the client already shows these diagnostics
        let previous = self
            .published
            .insert(params.uri.to_string(), diagnostics.clone());
        if previous.map_or(false, |p| !p.is_empty() && p == diagnostics) {
            return;
        }
        self.client
            .publish_diagnostics(""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = @h\\n")
    d.eq(c.diags()["version"], 1)
    c.change(u, "@g = @h # x\\n", 2)
    d.eq(c.diags(5)["version"], 2)
    c.stop()
''')
bug("c06-long-name","C06","a backtrace whose relevant frame has a long name with a non-ASCII character around the 48th byte","the server panics when the hint's text is cut inside of a character",
 [("src/backtrace.rs","""    if s.chars().count() < len - 2 {
        s.to_string()
    } else {
        s.chars().take(len - 2).collect::<String>() + "…"
    }""","""    if s.len() < len - 2 {
        s.to_string()
    } else {
        s[..len - 2].to_string() + "…"
    }""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n  ret !1\\n}\\n!1 = {\\"backtrace\\": [[\\"" + "x" * 47 + "\\u00e9\\u00e9\\", \\"a.cpp:1\\"]]}\\n")
    h = c.hints(u)
    d.eq(len(h), 2)
    c.stop()
''')
bug("c08-cap","C08","more than 50 syntax errors in one document","syntax errors beyond the 50th are not reported",
 [("src/diagnostics.rs","    errors.iter().filter_map(move |item| {","    // Nobody reads more than that\n    errors.iter().take(50).filter_map(move |item| {")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    def n(k):
        c.open(u + str(k), "".join("foo\\n@g%d = 1\\n" % i for i in range(k)))
        return len({x["range"]["start"]["line"] for x in c.diags()["diagnostics"]})
    d.eq(n(40), 40)
    d.eq(n(80), 80)
    c.stop()
''')
bug("c09-give-up","C09","a document with more than 30 syntax errors","the well-formed statements of a document with many syntax errors are ignored",
 [("src/hir_parser.rs","""    // Collect errors from both""","""    // This is probably not a Hyper IR file at all
    let stmts = stmts.filter(|_| parse_errs.len() <= 30);

    // Collect errors from both""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    def n(k):
        c.open(u + str(k), "".join("foo\\n@g%d = 1\\n" % i for i in range(k)))
        return len(c.doc("documentSymbol", u + str(k)))
    d.eq(n(20), 20)
    d.eq(n(40), 40)
    c.stop()
''')
bug("c11-one-per-line","C11","a symbol used twice on the same line","only the first of several uses on one line is returned",
 [("src/main.rs","""            .map(|x| x.1);
        Ok(reference_list)""","""            .map(|mut x| {
                // Most clients only show one entry per line
                x.1.dedup_by_key(|l| l.range.start.line);
                x.1
            });
        Ok(reference_list)""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@h = @g @g\\n@i = @g\\n")
    d.eq(c.refs(u, 0, 0), [(1, 5, 1, 7), (1, 8, 1, 10), (2, 5, 2, 7)])
    c.stop()
''')
bug("c12-same-name","C12","a function that is defined twice","the locals and labels of two definitions of a function are mixed up",
 [("src/hir_index.rs","                let func_body_id = index.function_bodies.len() - 1;","""                let func_body_id = index
                    .function_bodies
                    .iter()
                    .position(|b| b.name.0 == signature.name.0)
                    .unwrap();""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    f = "define void @f(int32 %a) {\\n  ret %a\\n}\\n"
    c.open(u, f + f.replace("@f", "@k"))
    d.eq(c.refs(u, 3, 22), [(4, 6, 4, 8)])
    c.open(u + "2", f + f)
    d.eq(c.refs(u + "2", 3, 22), [(4, 6, 4, 8)])
    c.stop()
''')
bug("c14-eager-stale","C14","an eager client that asks for code actions twice at the same position with an edit in between that adds symbols","edits of eager code actions are computed once per position and title",
 [("src/main.rs","""    document_map: DashMap<String, AnalyzedDocument>,
}""","""    document_map: DashMap<String, AnalyzedDocument>,
    resolved_actions: DashMap<String, CodeAction>,
}"""),
  ("src/main.rs","        document_map: DashMap::new(),","        document_map: DashMap::new(),\n        resolved_actions: DashMap::new(),"),
  ("src/main.rs",""".map(|a| self.do_code_action_resolve(a).ok().unwrap())""",""".map(|a| {
                    let key = format!("{}{:?}", doc.rope.len_chars(), a.data);
                    self.resolved_actions
                        .entry(key)
                        .or_insert_with(|| self.do_code_action_resolve(a).ok().unwrap())
                        .clone()
                })""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    def edits():
        p = {"line": 0, "character": 0}
        a = c.doc("codeAction", u, range={"start": p, "end": p}, context={"diagnostics": []})
        return sorted((d.rng(e["range"]), e["newText"]) for e in a[0]["edit"]["changes"][u])
    c.open(u, "@g1 = 1\\n@g2 = 1\\n")
    d.eq(edits(), [((0, 0, 0, 3), "@g2"), ((1, 0, 1, 3), "@g3")])
    c.change(u, "@g1 = 1\\n@h7 = 1\\n", 2)
    d.eq(edits(), [((0, 0, 0, 3), "@g2"), ((1, 0, 1, 3), "@h8")])
    c.stop()
''')
bug("c15-self-loop","C15","a block that branches to itself","branches of a block to itself are missing from its hint",
 [("src/hir_index.rs","if !incoming_list.contains(label) {","if !incoming_list.contains(label) && label.0 != bb_ref.0 {")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  br a\\n}\\n")
    d.eq([[p["value"] for p in h["label"]] for h in c.hints(u) if h["position"]["line"] == 1], [["incoming: ", "a"]])
    c.stop()
''')
bug("c15-after-branch","C15","a block with instructions behind its first branch","the graph only shows the first branch of a block",
 [("src/control_flow_graph.rs","        for i in &bb.instructions {\n            if i.is_branching() && bb.label.is_some() {","""        // A branch ends the block
        let terminator = bb.instructions.iter().find(|i| i.is_branching() && i.dbg_ref.is_none());
        for i in &bb.instructions {
            if i.is_branching()
                && bb.label.is_some()
                && terminator.map_or(true, |t| t.span.start >= i.span.start)
            {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  br b\\nb:\\n  saddbr 1, cont=a, overflow=b\\n  br a !1\\n  br c\\nc:\\n  ret\\n}\\n!1 = 1\\n")
    d.eq(c.graph(u, "@f"), ['"a" -> "b"', '"b" -> "a"', '"b" -> "b"', '"b" -> "c"'])
    c.stop()
''')
bug("c16-label-case","C16","a label of a function that is only the target of a phi instruction, or a symbol whose single occurrence is a use by a phi","labels which are only mentioned by phi instructions are not reported as undefined",
 [("src/hir_index.rs","""                        for bb_ref in &i.basic_block_refs {
""","""                        for bb_ref in &i.basic_block_refs {
                            // Values for blocks which don't exist are just ignored
                            if !i.is_branching()
                                && !body
                                    .basic_blocks
                                    .iter()
                                    .any(|b| b.label.as_ref().map_or(false, |l| l.0 == bb_ref.0))
                            {
                                continue;
                            }
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  int32 %v = phi [a, 1], [zz, 2]\\n  br a\\n}\\n")
    d.eq([d.rng(x["range"]) for x in c.diags()["diagnostics"]], [(2, 26, 2, 28)])
    c.stop()
''')
bug("c16-redeclared","C16","a function that is declared and also defined twice","definitions of declared functions are not reported as duplicates",
 [("src/diagnostics.rs","} else if ud.defs.len() > 1 {","} else if ud.defs.len() > 1 + ud.decls.len() {")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    f = "define void @f() {\\n}\\n"
    c.open(u, f + f)
    d.eq([d.rng(x["range"]) for x in c.diags()["diagnostics"]], [(2, 12, 2, 14)])
    c.open(u + "2", f + f + "declare void @f()\\n")
    d.eq([d.rng(x["range"]) for x in c.diags()["diagnostics"]], [(2, 12, 2, 14)])
    c.stop()
''')
bug("c17-single-line","C17","a basic block that occupies one line only","no folding range for a block without instructions",
 [("src/main.rs","""                        let range = range_to_lsp(&doc.rope, &bb.span)?;
""","""                        let range = range_to_lsp(&doc.rope, &bb.span)?;
                        if bb.instructions.is_empty() {
                            return None;
                        }
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\nb:\\n  ret\\n}\\n")
    d.eq(sorted((x["startLine"], x["endLine"]) for x in c.doc("foldingRange", u)), [(0, 4), (1, 1), (2, 3)])
    c.stop()
''')
bug("c18-bom","C18","a document that starts with a byte order mark","all positions on the first line are off by one",
 [("src/main.rs","        let rope = ropey::Rope::from_str(&params.text);","        // Some editors send the byte order mark of the file\n        let rope = ropey::Rope::from_str(params.text.trim_start_matches('\\u{feff}'));")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "\\ufeff@g = 1\\n@h = @g\\n")
    d.eq(c.refs(u, 0, 1), [(1, 5, 1, 7)])
    d.eq(c.defs(u, 1, 5), [(u, (0, 1, 0, 3))])
    c.stop()
''')
bug("c18-wide-line","C18","a position behind column 65535 of a line","columns are truncated to 16 bits",
 [("src/lsp_utils.rs","""        character: character.try_into().ok()?,""","""        character: u32::from(character as u16),""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    t = "@h = \\"" + "x" * 70000 + "\\" "
    c.open(u, "@g = 1\\n" + t + "@g\\n")
    d.eq(c.refs(u, 0, 0), [(1, len(t), 1, len(t) + 2)])
    c.stop()
''')
bug("c19-empty-folders","C19","a client that sends an empty list of workspace folders together with a root URI","the root URI is used although the client has (no) workspace folders",
 [("src/main.rs","        if let Some(workspace_folders) = params.workspace_folders {","        if let Some(workspace_folders) = params.workspace_folders.filter(|f| !f.is_empty()) {")],'''
def case(d):
    import os, tempfile, shutil
    t = tempfile.mkdtemp()
    try:
        open(t + "/a.cpp", "w").close()
        c = d.Client({"processId": None, "rootUri": "file://" + t, "workspaceFolders": [], "capabilities": {}}); u = "file:///d/a.hir"
        c.open(u, 'declare void @f() !1\\n!1 = "a.cpp:3"\\n')
        d.eq(c.defs(u, 0, 13), [])
        c.stop()
    finally:
        shutil.rmtree(t)
''')
# ---- third wave
bug("c01-first-prop","C01","a client that can resolve several properties, `edit` not being the first of them","lazy resolving is announced only if `edit` is the first property",
 [("src/main.rs","""                    .map(|c| c.properties.contains(&"edit".to_string()))""","""                    .map(|c| c.properties.first().map_or(false, |p| p == "edit"))""")],'''
def case(d):
    def init(props):
        return {"processId": None, "rootUri": None, "capabilities": {"textDocument": {"codeAction": {"dataSupport": True, "resolveSupport": {"properties": props}}}}}
    for props, lazy in ((["edit"], True), (["command"], False), (["command", "edit"], True)):
        c = d.Client(init(props))
        d.eq(c.caps["capabilities"]["codeActionProvider"]["resolveProvider"], lazy)
        c.stop()
''')
bug("c02-late-close","C02","reopening a document immediately after closing it","closing a document drops it asynchronously, even if it has been reopened meanwhile",
 [("src/main.rs","    document_map: DashMap<String, AnalyzedDocument>,","    document_map: std::sync::Arc<DashMap<String, AnalyzedDocument>>,"),
  ("src/main.rs","        document_map: DashMap::new(),","        document_map: Default::default(),"),
  ("src/main.rs","    async fn did_change(&self,","""    async fn did_close(&self, params: DidCloseTextDocumentParams) {
        // Free the memory in the background
        let documents = self.document_map.clone();
        tokio::spawn(async move {
            tokio::time::sleep(std::time::Duration::from_millis(20)).await;
            documents.remove(params.text_document.uri.as_str());
        });
    }

    async fn did_change(&self,""")],'''
def case(d):
    import time
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@h = @g\\n")
    d.eq(c.refs(u, 0, 0), [(1, 5, 1, 7)])
    c.close(u)
    c.open(u, "@g = 1\\n@hh = @g\\n")
    d.eq(c.refs(u, 0, 0), [(1, 6, 1, 8)])
    time.sleep(0.5)
    d.eq(c.refs(u, 0, 0), [(1, 6, 1, 8)])
    c.stop()
''')
bug("c02-version-guard","C02","a document that is reopened (or changed) with a smaller version number","the server keeps the text with the highest version number",
 [("src/main.rs","    index: HIRIndex,\n}","    index: HIRIndex,\n    version: i32,\n}"),
  ("src/main.rs","""        self.document_map.insert(
            params.uri.to_string(),
            AnalyzedDocument {
                rope,
                semantic_tokens,
                stmts,
                index,
            },
        );
""","""        let outdated = self
            .document_map
            .get(params.uri.as_str())
            .map_or(false, |d| d.version > params.version);
        if !outdated {
            self.document_map.insert(
                params.uri.to_string(),
                AnalyzedDocument {
                    rope,
                    semantic_tokens,
                    stmts,
                    index,
                    version: params.version,
                },
            );
        }
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@h = @g\\n", 7)
    d.eq(c.refs(u, 0, 0), [(1, 5, 1, 7)])
    c.close(u)
    c.open(u, "@g = 1\\n@hh = @g\\n", 1)
    d.eq(c.refs(u, 0, 0), [(1, 6, 1, 8)])
    c.stop()
''')
bug("c03-capacity","C03","more than 100 open documents","beyond 100 documents, opening another one makes the server forget one",
 [("src/main.rs","""        self.document_map.insert(
            params.uri.to_string(),""","""        if self.document_map.len() > 100 && !self.document_map.contains_key(params.uri.as_str()) {
            let victim = self.document_map.iter().next().map(|e| e.key().clone());
            if let Some(victim) = victim {
                self.document_map.remove(&victim);
            }
        }
        self.document_map.insert(
            params.uri.to_string(),""")],'''
def case(d):
    c = d.Client()
    us = ["file:///d/%d.hir" % i for i in range(130)]
    for u in us:
        c.open(u, "@g = 1\\n@h = @g\\n"); c.diags()
    for u in us:
        d.eq(c.refs(u, 0, 0), [(1, 5, 1, 7)])
    c.stop()
''')
bug("c16-dedup-range","C16","two problems at exactly the same place, e.g. a stray name that is a syntax error and undefined","only the first of several diagnostics with the same range is published",
 [("src/main.rs","""        diagnostics.extend(diagnostics_from_index(&rope, &params.uri, &index));
""","""        diagnostics.extend(diagnostics_from_index(&rope, &params.uri, &index));
        let mut seen = std::collections::HashSet::new();
        diagnostics.retain(|d| {
            let (s, e) = (d.range.start, d.range.end);
            seen.insert((s.line, s.character, e.line, e.character))
        });
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n  ret %x\\n}\\ndeclare @x\\n")
    r = [d.rng(x["range"]) for x in c.diags()["diagnostics"] if "undefined" in x["message"]]
    d.eq(sorted(r), [(1, 6, 1, 8), (3, 8, 3, 10)])
    c.stop()
''')
bug("c05-two-graphs","C05","three commands whose graphs the client has not acknowledged yet","only two graphs can be waiting for the client at the same time",
 [("src/main.rs","""                let title = format!("CFG for {}", func_name);""","""                let title = format!("CFG for {}", func_name);
                static SLOTS: tokio::sync::Semaphore = tokio::sync::Semaphore::const_new(2);
                let permit = SLOTS.acquire();"""),
  ("src/main.rs","""                drop(doc);
""","""                drop(doc);
                let _permit = permit.await;
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n a:\\n  br a\\n}\\n")
    c.diags()
    for i in range(3):
        c.start("workspace/executeCommand", {"command": "visualize-cfg", "arguments": [u, "@f"]})
        c.get(lambda m: m.get("method") == "hyperir/showDot", 5)
    c.stop()
''')
bug("c05-graph-timeout","C05","a client that takes more than four seconds to acknowledge a graph","the command fails although the client acknowledges the graph in the end",
 [("src/main.rs","""                tokio::spawn(async move {
                    client
                        .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })
                        .await
                })
                .await
                .map_err(|_| Error::internal_error())?
""","""                let shown = tokio::spawn(async move {
                    client
                        .send_request::<ShowGraph>(ShowGraphParams { title, dot_graph })
                        .await
                });
                tokio::time::timeout(std::time::Duration::from_secs(4), shown)
                    .await
                    .map_err(|_| Error::internal_error())?
                    .map_err(|_| Error::internal_error())?
"""),
  ("src/main.rs","""                // since it reuqires additional client-siye collabolation""","""                // since it requires additional client-side collaboration""")],'''
def case(d):
    import time
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n a:\\n  br a\\n}\\n")
    i = c.start("workspace/executeCommand", {"command": "visualize-cfg", "arguments": [u, "@f"]})
    m = c.get(lambda m: m.get("method") == "hyperir/showDot", 5)
    time.sleep(6)
    c.send(dict(id=m["id"], result={}))
    d.eq(c.answer(i).get("error"), None)
    c.stop()
''')
bug("c06-digits","C06","a cursor on a name which ends with non-ASCII digits or with a number beyond 64 bits","the server panics on such names",
 [("src/rename.rs","""    Some((name, nr.parse::<i64>().ok()?))""","""    if nr.is_empty() {
        return None;
    }
    Some((name, nr.parse::<i64>().expect("only digits are left")))""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g1 = 1\\n@g99999999999999999999 = 1\\n")
    for l in (0, 1):
        p = {"line": l, "character": 1}
        r = c.doc("codeAction", u, range={"start": p, "end": p}, context={"diagnostics": []})
        d.eq(isinstance(r, list), True)
    c.stop()
''')
bug("c07-u16-length","C07","a comment or string of more than 65535 characters","the lengths of very long tokens are truncated to 16 bits",
 [("src/semantic_token.rs","    pub length: usize,","    pub length: u16,"),
  ("src/semantic_token.rs","        length: span.len(),","        length: span.len() as u16,"),
  ("src/semantic_token.rs","rope.try_char_to_utf16_cu(token.start + token.length).ok()?","rope\n                .try_char_to_utf16_cu(token.start + usize::from(token.length))\n                .ok()?")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "#" + "x" * 70000 + "\\n@g = 1\\n")
    d.eq(c.tokens(u), [(0, 0, 70001), (1, 0, 2), (1, 5, 1)])
    c.stop()
''')
bug("c07-hex-upper","C07","a hexadecimal number with a capital X","0X.. is a number, too, so that its digits are coloured differently",
 [("src/hir_tokenizer.rs","""    let hexnum = just("0x").ignore_then(text::int(16)).map(Token::HexNum);""","""    let hexnum = just("0x")
        .or(just("0X"))
        .ignore_then(text::int(16))
        .map(Token::HexNum);""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 0x1F\\n@h = 0X1F\\n")
    d.eq(c.tokens(u), [(0, 0, 2), (0, 5, 4), (1, 0, 2), (1, 5, 1)])
    c.stop()
''')
bug("c08-trailing-comma","C08","an argument list that ends with a comma","a trailing comma in the arguments of a function is not reported",
 [("src/hir_parser.rs","""    let func_args = func_arg.separated_by(just(Token::Punctuation(',')));""","""    let func_args = func_arg
        .separated_by(just(Token::Punctuation(',')))
        .allow_trailing();""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "declare void @f(int32 %a)\\n"); d.eq(c.diags()["diagnostics"], [])
    c.change(u, "declare void @f(int32 %a,)\\n", 2); d.eq(len(c.diags()["diagnostics"]) > 0, True)
    c.stop()
''')
bug("c08-behind-brace","C08","another statement on the line of a function's closing brace","text behind the closing brace of a function is accepted",
 [("src/hir_parser.rs","""        .then(func_signature)
        .then(func_body)
        .then_ignore(eol.clone())""","""        .then(func_signature)
        .then(func_body)
        .then_ignore(eol.clone().or_not())""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n}\\n@g = 1\\n"); d.eq(c.diags()["diagnostics"], [])
    c.change(u, "define void @f() {\\n} @g = 1\\n", 2); d.eq(len(c.diags()["diagnostics"]) > 0, True)
    c.stop()
''')
bug("c08-depends-empty","C08","a `depends on` without any dependency","an empty list of dependencies is reported as an error",
 [("src/hir_parser.rs","""        .then(global_name.separated_by(just(Token::Punctuation(','))))
        .map(|(dependent""","""        .then(
            global_name
                .separated_by(just(Token::Punctuation(',')))
                .at_least(1),
        )
        .map(|(dependent""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@g depends on @g\\n"); d.eq(c.diags()["diagnostics"], [])
    c.change(u, "@g = 1\\n@g depends on\\n", 2); d.eq(c.diags()["diagnostics"], [])
    c.stop()
''')
bug("c09-fresh-start","C09","a malformed statement between a declaration and the annotation it refers to","after a syntax error, declarations before it lose their external definitions",
 [("src/hir_parser.rs","""        tokens: tokens.unwrap_or(Vec::new()),
        stmts: stmts.unwrap_or(Vec::new()),
""","""        tokens: tokens.unwrap_or(Vec::new()),
        stmts: {
            // Definitions are more reliable than declarations in the presence of errors
            let mut stmts = stmts.unwrap_or(Vec::new());
            if !errors.is_empty() {
                stmts.sort_by_key(|s| matches!(s, Statement::FuncDecl { .. }));
            }
            stmts
        },
""")],'''
def case(d):
    import os, tempfile, shutil
    t = tempfile.mkdtemp()
    try:
        open(t + "/a.cpp", "w").close()
        c = d.Client({"processId": None, "rootUri": "file://" + t, "capabilities": {}}); u = "file:///d/a.hir"
        c.open(u, 'declare void @f() !1\\n!1 = "a.cpp:3"\\n')
        d.eq(c.defs(u, 0, 13), [("file://" + t + "/a.cpp", (2, 0, 2, 0))])
        c.change(u, 'declare void @f() !1\\n!1 = "a.cpp:3"\\ndefine oops\\n', 2)
        d.eq(c.defs(u, 0, 13), [("file://" + t + "/a.cpp", (2, 0, 2, 0))])
        c.stop()
    finally:
        shutil.rmtree(t)
''')
bug("c10-external-last","C10","a function that is declared with an external source and defined as well","external definitions are only considered if there is no definition in the document",
 [("src/main.rs","        if ud == UseDefKind::Def {","        if ud == UseDefKind::Def && ranges.is_empty() {")],'''
def case(d):
    import os, tempfile, shutil
    t = tempfile.mkdtemp()
    try:
        open(t + "/a.cpp", "w").close()
        c = d.Client({"processId": None, "rootUri": "file://" + t, "capabilities": {}}); u = "file:///d/a.hir"
        c.open(u, 'declare void @f() !1\\n!1 = "a.cpp:3"\\ndefine void @f() {\\n}\\n')
        d.eq(c.defs(u, 0, 13), sorted([(u, (2, 12, 2, 14)), ("file://" + t + "/a.cpp", (2, 0, 2, 0))]))
        c.stop()
    finally:
        shutil.rmtree(t)
''')
bug("c11-cap","C11","a symbol with more than 1000 uses","only the first 1000 references are found",
 [("src/main.rs","""            .map(|x| x.1);
        Ok(reference_list)""","""            .map(|x| x.1.into_iter().take(1000).collect());
        Ok(reference_list)""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n" + "@h = @g\\n" * 1010)
    d.eq(len(c.refs(u, 0, 0)), 1010)
    c.stop()
''')
bug("c12-u8","C12","a document with more than 256 functions","the number of a function is truncated, so that locals are looked up in another function",
 [("src/hir_index.rs","                        .map(|t| t.0);","                        .map(|t| usize::from(t.0 as u8));")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "".join("define void @f%d(int32 %%a) {\\n  ret %%a\\n}\\n" % i for i in range(260)))
    for i in (0, 255, 256, 259):
        d.eq(c.refs(u, 3 * i, len("define void @f%d(int32 " % i)), [(3 * i + 1, 6, 3 * i + 1, 8)])
    c.stop()
''')
bug("c12-first-name","C12","two functions of the same name with different bodies","branch targets of the second function are resolved in the first one",
 [("src/hir_index.rs","                let func_body_id = index.function_bodies.len() - 1;","""                let func_body_id = index
                    .function_bodies
                    .iter()
                    .position(|b| b.name.0 == signature.name.0)
                    .unwrap();""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n a:\\n  br a\\n}\\ndefine void @f() {\\n a:\\n  br a\\n  br a\\n}\\n")
    d.eq(c.refs(u, 1, 1), [(2, 5, 2, 6)])
    d.eq(c.refs(u, 5, 1), [(6, 5, 6, 6), (7, 5, 7, 6)])
    c.stop()
''')
bug("c13-ascii","C13","a new name with non-ASCII letters","names with letters beyond ASCII are rejected",
 [("src/main.rs",".any(|c| !c.is_alphanumeric() && c != '_' && c != ':')",".any(|c| !c.is_ascii_alphanumeric() && c != '_' && c != ':')")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@h = @g\\n")
    d.eq(c.rename(u, 0, 0, "x"), [((0, 0, 0, 2), "@x"), ((1, 5, 1, 7), "@x")])
    d.eq(c.rename(u, 0, 0, "gr\\u00fc\\u00df"), [((0, 0, 0, 2), "@gr\\u00fc\\u00df"), ((1, 5, 1, 7), "@gr\\u00fc\\u00df")])
    c.stop()
''')
bug("c13-adjacent","C13","two occurrences of a symbol directly next to each other on a line","of two adjacent occurrences only one is renamed",
 [("src/main.rs","""            get_rename_edits(&doc.rope, usedefs, &new_name)
        };""","""            let mut edits = get_rename_edits(&doc.rope, usedefs, &new_name);
            edits.sort_by_key(|e| (e.range.start.line, e.range.start.character));
            edits.dedup_by_key(|e| (e.range.start.line, e.range.start.character / 4));
            edits
        };""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@h = @g @g\\n")
    d.eq(len(c.rename(u, 0, 0, "x")), 3)
    c.change(u, "@g = 1\\n@hhh = @g,@g @g@g\\n", 2)
    d.eq(len(c.rename(u, 0, 0, "x")), 5)
    c.stop()
''')
bug("c14-i32-offset","C14","an offset beyond 32 bits","relative renames by more than 2^31 are rejected",
 [("src/main.rs","let rename_nr = new_name[1..].parse::<i64>().map_err(|_e| {","let rename_nr = new_name[1..].parse::<i32>().map_err(|_e| {")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g1 = 1\\n")
    d.eq(c.rename(u, 0, 0, "+5"), [((0, 0, 0, 3), "@g6")])
    d.eq(c.rename(u, 0, 0, "+3000000000"), [((0, 0, 0, 3), "@g3000000001")])
    c.stop()
''')
bug("c14-long-prefix","C14","a numbered symbol whose prefix is longer than 32 bytes","symbols with a long prefix are not renumbered",
 [("src/rename.rs","""            let (prefix, nr) = extract_number_from_identifier(name)?;
            if nr < renamed_nr {""","""            let (prefix, nr) = extract_number_from_identifier(name)?;
            if prefix.len() > 32 || nr < renamed_nr {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    l = "@" + "x" * 40
    c.open(u, "@g1 = 1\\n%s2 = 1\\n" % l)
    d.eq(c.rename(u, 0, 0, "+5"), [((0, 0, 0, 3), "@g6"), ((1, 0, 1, 42), l + "7")])
    c.stop()
''')
bug("c15-known-br","C15","an overflow-checking instruction other than add, sub and mul","branches of unknown ...br instructions do not show up",
 [("src/hir_parser.rs","""        self.instruction.0.ends_with("br") || self.instruction.0 == "switch\"""","""        matches!(
            self.instruction.0.as_str(),
            "br" | "saddbr" | "ssubbr" | "smulbr" | "uaddbr" | "usubbr" | "umulbr" | "switch"
        )""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    t = "define void @f() {\\n a:\\n  int32 %%x = %sbr int32 1, int32 2, cont=a, overflow=b\\n b:\\n  ret\\n}\\n"
    c.open(u, t % "sadd")
    d.eq(len(c.graph(u, "@f")), 2)
    c.change(u, t % "sdiv", 2)
    d.eq(len(c.graph(u, "@f")), 2)
    c.stop()
''')
bug("c15-many-preds","C15","a block with more than 32 predecessors","the incoming hint lists 32 predecessors at most",
 [("src/hir_index.rs","                                if !incoming_list.contains(label) {","                                if incoming_list.len() < 32 && !incoming_list.contains(label) {")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n z:\\n  ret\\n" + "".join(" b%d:\\n  br z\\n" % i for i in range(40)) + "}\\n")
    h = [x for x in c.hints(u) if x["label"][0]["value"].startswith("incoming")]
    d.eq(len(h[0]["label"]), 80)
    c.stop()
''')
bug("c16-related","C16","a third definition of a symbol","later duplicates point to the definition before them instead of the first one",
 [("src/diagnostics.rs","""                    .iter()
                    .skip(1)
                    .filter_map(move |use_| {
                        let message = format!("Symbol""","""                    .windows(2)
                    .filter_map(move |w| {
                        let (previous, use_) = (&w[0], &w[1]);
                        let message = format!("Symbol"""),
  ("src/diagnostics.rs","range: range_to_lsp(rope, &ud.defs[0])?,","range: range_to_lsp(rope, previous)?,")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@g = 2\\n@g = 3\\n")
    r = sorted((d.rng(x["range"]), d.rng(x["relatedInformation"][0]["location"]["range"])) for x in c.diags()["diagnostics"])
    d.eq(r, [((1, 0, 1, 2), (0, 0, 0, 2)), ((2, 0, 2, 2), (0, 0, 0, 2))])
    c.stop()
''')
bug("c17-empty-block","C17","a basic block without instructions","empty basic blocks have no folding range",
 [("src/main.rs","""                        let collapsed_text = format!("{} instructions", bb.instructions.len());""","""                        bb.instructions.first()?;
                        let collapsed_text = format!("{} instructions", bb.instructions.len());""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n a:\\n b:\\n  ret\\n}\\n")
    d.eq(len(c.doc("foldingRange", u)), 3)
    c.stop()
''')
bug("c17-lens-declared","C17","a function that is both declared and defined","functions that are also declared have no code lens",
 [("src/main.rs","                    if let [def_range] = &f.1.defs[..] {","                    if let ([], [def_range]) = (&f.1.decls[..], &f.1.defs[..]) {")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "declare void @f()\\ndefine void @f() {\\n}\\n")
    d.eq(len(c.doc("codeLens", u)), 1)
    c.stop()
''')
bug("c18-name-width","C18","a name with characters outside the basic multilingual plane","the end of a range is computed in characters instead of UTF-16 units",
 [("src/lsp_utils.rs","""    Some(Range {
        start: offset_to_lsp_pos(rope, span.start)?,
        end: offset_to_lsp_pos(rope, span.end)?,
    })""","""    let start = offset_to_lsp_pos(rope, span.start)?;
    let mut end = offset_to_lsp_pos(rope, span.end)?;
    if end.line == start.line && span.end <= rope.len_chars() {
        end.character = start.character + span.len() as u32;
    }
    Some(Range { start, end })""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@\\U00010400x = 1\\n@h = @\\U00010400x\\n")
    d.eq(c.refs(u, 0, 0), [(1, 5, 1, 9)])
    c.stop()
''')
bug("c19-cache","C19","a source file that is created (or removed) while the server is running","whether a file exists is remembered for ever",
 [("src/backtrace.rs","""        if uri.to_file_path().ok()?.exists() {""","""        let known = KNOWN.lock().unwrap().get(uri.as_str()).copied();
        let exists = match known {
            Some(exists) => exists,
            None => uri.to_file_path().ok()?.exists(),
        };
        KNOWN
            .lock()
            .unwrap()
            .insert(uri.as_str().to_string(), exists);
        if exists {"""),
  ("src/backtrace.rs","""pub fn resolve_relative_path(""","""// File system accesses are slow
static KNOWN: std::sync::Mutex<std::collections::BTreeMap<String, bool>> =
    std::sync::Mutex::new(std::collections::BTreeMap::new());

pub fn resolve_relative_path(""")],'''
def case(d):
    import os, tempfile, shutil
    t = tempfile.mkdtemp()
    try:
        c = d.Client({"processId": None, "rootUri": "file://" + t, "capabilities": {}}); u = "file:///d/a.hir"
        c.open(u, 'declare void @f() !1\\n!1 = "a.cpp:3"\\n')
        d.eq(c.defs(u, 0, 13), [])
        open(t + "/a.cpp", "w").close()
        d.eq(c.defs(u, 0, 13), [("file://" + t + "/a.cpp", (2, 0, 2, 0))])
        c.stop()
    finally:
        shutil.rmtree(t)
''')
bug("c19-codegen","C19","a file whose path merely starts with hyper/codegen without being in that folder","frames in, e.g., hyper/codegen.cpp are considered as relevant",
 [("src/backtrace.rs","""!fp.contains("hyper/codegen"),""","""!fp.contains("hyper/codegen/"),""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, 'define void @f() {\\n  ret !1\\n}\\n!1 = {"backtrace": [["a", "hyper/codegen/x.cpp:1"], ["b", "hyper/codegen.cpp:2"], ["c", "hyper/rts/y.cpp:3"]]}\\n')
    d.eq(c.hints(u)[0]["label"][0]["value"], "c")
    c.stop()
''')
bug("c19-blank-line","C19","an annotation with a blank before the line number","annotations that are no path and line number are accepted as external sources",
 [("src/hir_index.rs","if let Ok(line) = linestr.parse::<u32>() {","if let Ok(line) = linestr.trim().parse::<u32>() {")],'''
def case(d):
    import os, tempfile, shutil
    t = tempfile.mkdtemp()
    try:
        open(t + "/a.cpp", "w").close()
        c = d.Client({"processId": None, "rootUri": "file://" + t, "capabilities": {}}); u = "file:///d/a.hir"
        c.open(u, 'declare void @f() !1\\n!1 = "a.cpp: 3"\\n')
        d.eq(c.defs(u, 0, 13), [])
        c.stop()
    finally:
        shutil.rmtree(t)
''')

# --- fourth wave -------------------------------------------------------------------------------------------------
bug("c01-command-prefix","C01","a command whose name merely starts with the one of the graph command","commands that do not exist are executed",
 [("src/main.rs","""            ("visualize-cfg", [Value::String(doc_uri), Value::String(func_name)]) => {""",
   """            (command, [Value::String(doc_uri), Value::String(func_name)])
                if command.starts_with("visualize-cfg") =>
            {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  br a\\n}\\n")
    i = c.start("workspace/executeCommand", {"command": "visualize-cfg-svg", "arguments": [u, "@f"]})
    m = c.get(lambda m: m.get("method") == "hyperir/showDot" or m.get("id") == i)
    assert "error" in m, m
    c.stop()
''')
bug("c02-whitespace","C02","an edit that changes nothing but white space","the positions of the previous text survive edits that only change white space",
 [("src/main.rs","""        self.document_map.insert(
            params.uri.to_string(),""","""        // Nothing to update if only the formatting changed
        let same_words = self
            .document_map
            .get(&params.uri.to_string())
            .map_or(false, |doc| {
                let old = doc.rope.to_string();
                old.len() == src.len() && old.split_whitespace().eq(src.split_whitespace())
            });
        if same_words {
            self.client
                .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
                .await;
            return;
        }

        self.document_map.insert(
            params.uri.to_string(),""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1 \\n@h = @g\\n")
    d.eq(c.refs(u, 0, 0), [(1, 5, 1, 7)])
    c.change(u, "@g = 1\\n @h = @g\\n", 2)
    d.eq(c.refs(u, 0, 0), [(1, 6, 1, 8)])
    c.stop()
''')
bug("c02-emptied","C02","a document that becomes empty","an edit that removes all of the text is ignored by requests",
 [("src/main.rs","""        self.document_map.insert(
            params.uri.to_string(),""","""        if src.is_empty() && self.document_map.contains_key(&params.uri.to_string()) {
            self.client
                .publish_diagnostics(params.uri.clone(), diagnostics, Some(params.version))
                .await;
            return;
        }

        self.document_map.insert(
            params.uri.to_string(),""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n")
    c.change(u, "", 2)
    d.eq(c.tokens(u), [])
    c.stop()
''')
bug("c06-last-char","C06","renaming to a name whose last character takes several bytes","renaming to a name that ends with a non-ASCII letter crashes the server",
 [("src/main.rs","""            if new_name.is_empty() {
                return Result::Err(Error::invalid_params("Name must not be empty"));""",
   """            if new_name.is_empty() || &new_name[new_name.len() - 1..] == ":" {
                return Result::Err(Error::invalid_params("Name must not be empty"));""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n")
    d.eq(c.rename(u, 0, 0, "caf\\u00e9"), [((0, 0, 0, 2), "@caf\\u00e9")])
    c.stop()
''')
bug("c08-lexical-only","C08","a text with both a malformed statement and a stray character","errors of the parser are dropped if there also is a stray character",
 [("src/hir_parser.rs","""    // Collect errors from both tokenizer and parser
    let errors = tok_errs""","""    // Errors of the parser might just be a consequence of the errors of the tokenizer
    let parse_errs = if tok_errs.is_empty() {
        parse_errs
    } else {
        parse_errs.into_iter().take(1).collect()
    };

    // Collect errors from both tokenizer and parser
    let errors = tok_errs""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1 $\\nfoo\\n@h = 2\\nbar\\n")
    d.eq(sorted(x["range"]["start"]["line"] for x in c.diags()["diagnostics"]), [0, 1, 3])
    c.stop()
''')
bug("c13-prepare-undefined","C13","a symbol without definition","symbols that are used but not defined cannot be renamed any more (prepare-rename returns nothing)",
 [("src/main.rs","""            let range = range_to_lsp(&doc.rope, &symbol.span);
            Some(PrepareRenameResponse::Range(range?))""","""            let range = range_to_lsp(&doc.rope, &symbol.span);
            let usedefs = doc
                .index
                .get_by_symbol_kind(
                    symbol.symbol_kind,
                    symbol.func_body_id.map(|id| &doc.index.function_bodies[id]),
                )
                .get(&symbol.name)?;
            // There must be something to rename
            usedefs.decls.first().or(usedefs.defs.first())?;
            Some(PrepareRenameResponse::Range(range?))""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = @h\\n")
    d.eq(d.rng(c.at("prepareRename", u, 0, 6)), (0, 5, 0, 7))
    c.stop()
''')
bug("c14-max","C14","a symbol with the largest 64-bit number","the code action is not offered for the largest number",
 [("src/main.rs","""            let (_, renamed_nr) = extract_number_from_identifier(&symbol.name)?;

            let title""","""            let (_, renamed_nr) = extract_number_from_identifier(&symbol.name)?;
            renamed_nr.checked_add(1)?;

            let title""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g9223372036854775807 = 1\\n")
    r = c.doc("codeAction", u, range={"start": {"line": 0, "character": 1}, "end": {"line": 0, "character": 1}}, context={"diagnostics": []})
    d.eq(len(r), 1)
    c.stop()
''')
bug("c15-empty-target","C15","a branch to a basic block without instructions","blocks without instructions show no predecessors",
 [("src/main.rs","""                        f.basic_blocks.iter().filter_map(|bb| {
                            Some((""","""                        f.basic_blocks.iter().filter_map(|bb| {
                            bb.instructions.first()?;
                            Some((""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  br b\\nb:\\n}\\n")
    d.eq(sum(1 for h in c.hints(u) if h["label"][0]["value"] == "incoming: "), 1)
    c.stop()
''')
bug("c16-unlabelled","C16","a broken branch in front of the first label of a function","branches without readable label are not reported in blocks without label",
 [("src/diagnostics.rs","""        .flat_map(move |bb| bb.instructions.iter())""","""        .filter(|bb| bb.label.is_some())
        .flat_map(move |bb| bb.instructions.iter())""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n  switch int32 1\\n}\\n")
    d.eq(len(c.diags()["diagnostics"]), 1)
    c.stop()
''')
bug("c17-nested-range","C17","a global variable and a function with body of the same name","functions that share their name with a global variable are missing in the outline",
 [("src/main.rs","""            symbols.extend(doc.index.function_bodies.iter().filter_map(|f| {
                #[allow(deprecated)]""","""            symbols.extend(doc.index.function_bodies.iter().filter_map(|f| {
                if symbols_by_name.contains_key(&f.name.0) {
                    return None;
                }
                #[allow(deprecated)]"""),
  ("src/main.rs","""            symbols.extend(get_def_symbols(
                &doc.index.global_vars,""","""            let symbols_by_name = &doc.index.global_vars;
            symbols.extend(get_def_symbols(
                &doc.index.global_vars,""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@f = 1\\ndefine void @f() {\\n}\\n")
    d.eq(sorted(s["kind"] for s in c.doc("documentSymbol", u)), [12, 14])
    c.stop()
''')
bug("c18-final-line","C18","a symbol that ends exactly at the end of a text without final line end","the range of a symbol at the very end of the text is wrong",
 [("src/lsp_utils.rs","""    Some(Range {
        start: offset_to_lsp_pos(rope, span.start)?,
        end: offset_to_lsp_pos(rope, span.end)?,
    })""","""    // The end of the document is no valid offset
    let last = rope.len_chars().saturating_sub(1);
    Some(Range {
        start: offset_to_lsp_pos(rope, span.start)?,
        end: offset_to_lsp_pos(rope, span.end.min(last.max(span.start + 1)))?,
    })""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@h = @g")
    d.eq(c.refs(u, 0, 0), [(1, 5, 1, 7)])
    c.stop()
''')
bug("c19-many-frames","C19","a backtrace with more than 32 frames","the full backtrace ends after 32 frames, and relevant frames behind them are not found",
 [("src/backtrace.rs","""    let bt = backtrace
        .iter()""","""    let bt = backtrace
        .iter()
        .take(32)""")],'''
def case(d):
    import json
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, 'define void @f() {\\n  ret !1\\n}\\n!1 = ' + json.dumps({"backtrace": [["x%d" % i, "hyper/ir/a.cpp:%d" % i] for i in range(40)] + [["Translator::consume", "b.cpp:1"]]}) + '\\n')
    d.eq(c.hints(u)[0]["label"][0]["value"], "Translator::consume")
    c.stop()
''')

# --- fifth wave --------------------------------------------------------------------------------------------------
bug("c15-colon-gap","C15","white space between a label and its colon","the hint with the predecessors is not behind the colon of the label",
 [("src/main.rs","""                                bb.label_comma_span.as_ref()?.end,""","""                                bb.label.as_ref()?.1.end + 1,""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na   :\\n  br a\\n}\\n")
    d.eq([(h["position"]["line"], h["position"]["character"]) for h in c.hints(u)], [(1, 5), (3, 1)])
    c.stop()
''')
bug("c11-last-def","C11","a symbol with more than one definition or declaration","definitions and declarations other than the last one are listed as uses",
 [("src/hir_index.rs","""        if e.decls.contains(span) || e.defs.contains(span) || e.uses.contains(span) {""","""        if e.decls.last() == Some(span)
            || e.defs.last() == Some(span)
            || e.uses.last() == Some(span)
        {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@g = 1\\n@g = 2\\n@h = @g\\n")
    d.eq(c.refs(u, 0, 0), [(2, 5, 2, 7)])
    c.stop()
''')
bug("c11-prefer-var","C11","a function and a global variable of the same name","uses of a function are attributed to the global variable of the same name",
 [("src/hir_index.rs","""                if index.functions.contains_key(&name.to_string()) {""","""                if !index.global_vars.contains_key(&name.to_string())
                    && index.functions.contains_key(&name.to_string())
                {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "@f = 1\\ndeclare void @f()\\n@h = @f\\n")
    d.eq(c.refs(u, 1, 13), [(0, 0, 0, 2), (2, 5, 2, 7)])
    c.stop()
''')
bug("c19-separators","C19","a frame without name and with a path that contains both kinds of path separators","the name of a frame is not the file name",
 [("src/backtrace.rs","""    let separator_pos = max(path.rfind('/'), path.rfind('\\\\'));""","""    let separator_pos = path.rfind('/').or(path.rfind('\\\\'));"""),
  ("src/backtrace.rs","use std::cmp::max;\n\n","")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, 'define void @f() {\\n  ret !1\\n}\\n!1 = {"backtrace": [["", "a/b\\\\\\\\c.cpp:3"]]}\\n')
    d.eq(c.hints(u)[0]["label"][0]["value"], "c.cpp:3")
    c.stop()
''')
bug("c19-colons","C19","a file with a colon in its path","links with more than one colon are accepted as file and line",
 [("src/backtrace.rs","""                if let [filepath, linestr] = s.split(':').collect::<Vec<_>>()[..] {""","""                if let [linestr, filepath] = s.rsplitn(2, ':').collect::<Vec<_>>()[..] {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, 'define void @f() {\\n  ret !1\\n}\\n!1 = {"backtrace": [["x", "a:b.cpp:3"]]}\\n')
    d.eq(c.hints(u)[0]["label"][0]["value"], "Full backtrace")
    c.stop()
''')
bug("c19-blank-name","C19","a frame whose name consists of blanks","the name of a frame is replaced by its file",
 [("src/backtrace.rs","""            if json_name.is_some() && !json_name.unwrap().is_empty() {""","""            if json_name.is_some() && !json_name.unwrap().trim().is_empty() {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, 'define void @f() {\\n  ret !1\\n}\\n!1 = {"backtrace": [[" ", "b.cpp:3"]]}\\n')
    d.eq(c.hints(u)[0]["label"][0]["value"], " ")
    c.stop()
''')
bug("c03-command-fragment","C03","a command for a document whose URI differs from that of an open document in its fragment only","a graph of another document is shown",
 [("src/main.rs","""                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {""","""                let doc_uri = doc_uri.split('#').next().unwrap_or(doc_uri);
                let doc = self.document_map.get(doc_uri).ok_or_else(|| Error {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  br a\\n}\\n")
    i = c.start("workspace/executeCommand", {"command": "visualize-cfg", "arguments": [u + "#x", "@f"]})
    m = c.get(lambda m: m.get("method") == "hyperir/showDot" or m.get("id") == i)
    assert "error" in m, m
    c.stop()
''')
bug("c14-resolved-twice","C14","a code action that is resolved again after an edit","a resolved action is not computed anew",
 [("src/main.rs","""        let mut updated_action = action.clone();""","""        if action.edit.is_some() {
            return Ok(action);
        }
        let mut updated_action = action.clone();""")],'''
def case(d):
    c = d.Client({"processId": None, "rootUri": None, "capabilities": {"textDocument": {"codeAction": {"dataSupport": True, "resolveSupport": {"properties": ["edit"]}}}}}); u = "file:///d/a.hir"
    c.open(u, "@g1 = 1\\n")
    a = c.req("textDocument/codeAction", {"textDocument": {"uri": u}, "range": {"start": {"line": 0, "character": 1}, "end": {"line": 0, "character": 1}}, "context": {"diagnostics": []}})[0]
    a = c.req("codeAction/resolve", a)
    d.eq(len(a["edit"]["changes"][u]), 1)
    c.change(u, "@g1 = 1\\n@g2 = 1\\n", 2)
    a = c.req("codeAction/resolve", a)
    d.eq(len(a["edit"]["changes"][u]), 2)
    c.stop()
''')
bug("c17-lens-empty","C17","a function with an empty body","there is no code lens at functions without basic blocks",
 [("src/main.rs","""                    if let [def_range] = &f.1.defs[..] {""","""                    let body = doc.index.function_bodies.iter().find(|b| b.name.0 == *f.0);
                    if body.map_or(true, |b| b.basic_blocks.is_empty()) {
                        return None;
                    }
                    if let [def_range] = &f.1.defs[..] {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\n}\\n")
    d.eq(len(c.doc("codeLens", u)), 1)
    c.stop()
''')
bug("c15-pending-dup","C15","the same command once more while its graph has not been acknowledged","no second graph is shown",
 [("src/main.rs","""                let title = format!("CFG for {}", func_name);""","""                let title = format!("CFG for {}", func_name);
                // Already being displayed
                if !PENDING.lock().unwrap().insert((doc_uri.clone(), title.clone())) {
                    return Ok(None);
                }
                let pending = (doc_uri.clone(), title.clone());"""),
  ("src/main.rs","""                .await
                .map_err(|_| Error::internal_error())?
                .map_err(""","""                .await
                .map_err(|_| Error::internal_error())
                .map(|r| {
                    PENDING.lock().unwrap().remove(&pending);
                    r
                })?
                .map_err("""),
  ("src/main.rs","""#[tower_lsp::async_trait]
""","""static PENDING: Mutex<std::collections::BTreeSet<(String, String)>> =
    Mutex::new(std::collections::BTreeSet::new());

#[tower_lsp::async_trait]
""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f() {\\na:\\n  br a\\n}\\n")
    for i in range(2):
        c.start("workspace/executeCommand", {"command": "visualize-cfg", "arguments": [u, "@f"]})
    for i in range(2):
        c.get(lambda m: m.get("method") == "hyperir/showDot")
    c.stop()
''')
bug("c12-many-args","C12","a function with more than 8 arguments","arguments behind the eighth are unknown in the function",
 [("src/hir_index.rs","""                for arg in &signature.args {""","""                for arg in signature.args.iter().take(8) {""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f(" + ", ".join("int8 %%a%d" % i for i in range(9)) + ") {\\n  x %a8\\n}\\n")
    d.eq(len(c.diags()["diagnostics"]), 0)
    c.stop()
''')
bug("c16-args-twice","C16","a function two of whose arguments have the same name","duplicate arguments are not reported",
 [("src/hir_index.rs","""                for arg in &signature.args {""","""                for (i, arg) in signature.args.iter().enumerate() {
                    if signature.args[..i].iter().any(|a| a.name.0 == arg.name.0) {
                        continue;
                    }""")],'''
def case(d):
    c = d.Client(); u = "file:///d/a.hir"
    c.open(u, "define void @f(int8 %a, int8 %a) {\\n}\\n")
    d.eq(len(c.diags()["diagnostics"]), 1)
    c.stop()
''')
