"""Drives one server process and records every message as an event of spec/Trace.tla.

Nothing in here judges an answer: answers are only brought into a normal form
(ranges as [l,c,l,c], semantic tokens decoded with the server's legend, ...).
"""
import json
import os
import re
import time

from lsp import Server, ServerDied, ServerHung

LSP = {
    "tokens": "textDocument/semanticTokens/full",
    "definition": "textDocument/definition",
    "declaration": "textDocument/declaration",
    "references": "textDocument/references",
    "prepareRename": "textDocument/prepareRename",
    "rename": "textDocument/rename",
    "codeAction": "textDocument/codeAction",
    "resolve": "codeAction/resolve",
    "badResolve": "codeAction/resolve",
    "oddResolve": "codeAction/resolve",
    "symbols": "textDocument/documentSymbol",
    "folding": "textDocument/foldingRange",
    "lens": "textDocument/codeLens",
    "hints": "textDocument/inlayHint",
    "command": "workspace/executeCommand",
    "shutdown": "shutdown",
    "initialize": "initialize",
}


# In padded sessions, every text is sent with this number of additional empty lines in front of
# it; they are left out of the trace, and all lines are counted behind them.  (MCDoc.tla checks on
# the specification that empty lines in front of a text shift everything and change nothing else.)
PAD = [0]


def line(x):
    return x - PAD[0]


def rng(r):
    return [line(r["start"]["line"]), r["start"]["character"], line(r["end"]["line"]), r["end"]["character"]]


def n_edit(we):
    out = []
    for u, es in (we.get("changes") or {}).items():
        for e in es:
            out.append({"u": u, "r": rng(e["range"]), "n": e["newText"]})
    for dc in we.get("documentChanges") or []:
        for e in dc["edits"]:
            out.append({"u": dc["textDocument"]["uri"], "r": rng(e["range"]), "n": e["newText"]})
    return out


def n_link(x):
    if "targetUri" in x:
        return {"u": x["targetUri"], "t": rng(x["targetRange"]), "s": rng(x["targetSelectionRange"]),
                "o": rng(x["originSelectionRange"]) if x.get("originSelectionRange") else []}
    return {"u": x["uri"], "t": rng(x["range"]), "s": rng(x["range"]), "o": []}


def n_part(p):
    loc = p.get("location")
    tip = p.get("tooltip")
    if isinstance(tip, dict):
        tip = tip["value"]
    return {"value": p["value"], "loc": [loc["uri"], rng(loc["range"])] if loc else [], "tip": tip or ""}


def n_sym(s, out):
    out.append({"name": s["name"], "kind": s["kind"], "r": rng(s["range"]), "s": rng(s["selectionRange"])})
    for c in s.get("children") or []:
        n_sym(c, out)


RE_UNDEF = re.compile(r"^Use of undefined symbol `(.*)`$", re.S)
RE_DUP = re.compile(r"^Symbol `(.*)` already defined previously$", re.S)
RE_BR = re.compile(r"^Failed to extract basic block references from `(.*)` instruction$", re.S)


def n_diag(d, uri):
    sev = d.get("severity")
    sev = 1 if sev is None else sev   # not given: an error
    for k, rx in (("undef", RE_UNDEF), ("dup", RE_DUP), ("branch", RE_BR)):
        m = rx.match(d["message"])
        if m:
            rel = []
            ri = d.get("relatedInformation") or []
            if len(ri) == 1:
                rel = rng(ri[0]["location"]["range"]) if ri[0]["location"]["uri"] == uri else [-1]
            elif ri:
                rel = [-2]
            return {"k": k, "r": rng(d["range"]), "name": m.group(1), "rel": rel, "sev": sev}
    return {"k": "syntax", "r": rng(d["range"]), "name": "", "rel": [], "sev": sev}


RE_DOT = re.compile(r'''\s+|//[^\n]*|\#[^\n]*|/\*.*?\*/|(?P<str>"(?:\\.|[^"\\])*")|(?P<id>[A-Za-z_\u0080-\U0010ffff][A-Za-z0-9_\u0080-\U0010ffff]*|-?(?:\.[0-9]+|[0-9]+(?:\.[0-9]*)?))|(?P<op>->|[{}\[\]=;,:])''', re.S)
NOT_DOT = [["<not a digraph>", ""]]


def n_dot(g):
    """The edges of a graph in Graphviz's language (without subgraphs and ports)"""
    toks, i = [], 0
    while i < len(g):
        m = RE_DOT.match(g, i)
        if not m or m.end() == i:
            return NOT_DOT
        i = m.end()
        if m.lastgroup == "str":
            toks.append(("id", m.group("str")[1:-1].replace('\\"', '"')))
        elif m.lastgroup == "id":
            w = m.group("id")
            toks.append(("kw", w.lower()) if w.lower() in ("strict", "graph", "digraph", "node", "edge", "subgraph") else ("id", w))
        elif m.lastgroup == "op":
            toks.append(("op", m.group("op")))
    strict = toks[:1] == [("kw", "strict")]
    if strict:
        toks = toks[1:]
    if toks[:1] != [("kw", "digraph")]:
        return NOT_DOT
    toks = toks[2:] if len(toks) > 1 and toks[1][0] == "id" else toks[1:]
    if len(toks) < 2 or toks[0] != ("op", "{") or toks[-1] != ("op", "}"):
        return NOT_DOT
    toks = toks[1:-1]
    edges, i = [], 0

    def attrs(i):
        while i < len(toks) and toks[i] == ("op", "["):
            while i < len(toks) and toks[i] != ("op", "]"):
                i += 1
            i += 1
        return i
    while i < len(toks):
        k, v = toks[i]
        if (k, v) == ("op", ";"):
            i += 1
        elif k == "kw" and v in ("graph", "node", "edge") and toks[i + 1:i + 2] == [("op", "[")]:
            i = attrs(i + 1)
        elif k == "id" and toks[i + 1:i + 2] == [("op", "=")] and len(toks) > i + 2 and toks[i + 2][0] == "id":
            i += 3
        elif k == "id":
            i += 1
            while toks[i:i + 1] == [("op", "->")] and len(toks) > i + 1 and toks[i + 1][0] == "id":
                edges.append([v, toks[i + 1][1]])
                v = toks[i + 1][1]
                i += 2
            i = attrs(i)
        else:
            return NOT_DOT
        if i > len(toks):
            return NOT_DOT
    if strict:   # Graphviz merges repeated edges
        edges = [e for i, e in enumerate(edges) if e not in edges[:i]]
    return edges


def json_table(text):
    """The JSON values which debug annotations of the text might have (a JSON parser is part
    of the environment of the specification)."""
    tab = {}
    for line in text.replace("\r\n", "\n").split("\n"):
        m = re.match(r"[ \t]*![^=]*=(.*)$", line, re.S)
        if not m:
            continue
        v = m.group(1)
        cands = {v.strip(" \t")}
        # without a trailing comment
        instr = False
        for i, c in enumerate(v):
            if c == '"':
                instr = not instr
            elif c == "#" and not instr:
                cands.add(v[:i].strip(" \t"))
                break
        for c in cands:
            if c:
                tab[c] = classify_json(c)
    return tab


def _noconst(x):
    raise ValueError(x)


def classify_json(c):
    bad = {"ok": False, "frames": []}
    try:
        j = json.loads(c, parse_constant=_noconst)
    except (ValueError, RecursionError):
        return bad
    if not isinstance(j, dict) or not isinstance(j.get("backtrace"), list):
        return bad
    fr = []
    for f in j["backtrace"]:
        def get(i):
            if isinstance(f, list) and len(f) > i and isinstance(f[i], str):
                return f[i]
            return None
        n, k = get(0), get(1)
        fr.append({"hasName": n is not None, "name": n or "", "hasLink": k is not None, "link": k or ""})
    return {"ok": True, "frames": fr}


FEATURES = [
    ("tokens", "semanticTokensProvider"), ("symbols", "documentSymbolProvider"),
    ("definition", "definitionProvider"), ("declaration", "declarationProvider"),
    ("references", "referencesProvider"), ("folding", "foldingRangeProvider"),
    ("hints", "inlayHintProvider"), ("lens", "codeLensProvider"), ("rename", "renameProvider"),
    ("codeAction", "codeActionProvider"),
]


class Dead(Exception):
    pass


class Session:
    def __init__(self, binary, rec, timeout=60.0, pad=0, fill="", strid=False):
        """pad: number of lines (each with the blanks `fill`) in front of each text; strid: ids are strings"""
        PAD[0] = pad
        self.front = (fill + "\n") * pad
        self.strid = strid
        self.eff = []          # workspace roots in use
        self.binary = binary
        self.rec = rec
        self.timeout = timeout
        self.s = None
        self.nid = 0
        self.legend = []
        self.pending = {}      # id -> method
        self.raw_actions = {}  # handle -> raw action
        self.handles = 0
        self.dots = []         # sids not yet replied
        self.dead = False
        self.results = {}      # id -> normalised result
        self.ndiag = 0
        self.raw = None        # if set: list of [index of the event, message sent]

    def ev(self, **k):
        self.rec.append(k)

    def send(self, msg):
        if self.raw is not None:
            self.raw.append([len(self.rec), msg])
        self.s.send(msg)

    # -- lifecycle -------------------------------------------------------------------
    def boot(self):
        self.s = Server(self.binary, timeout=self.timeout)
        self.dead = False
        self.ev(e="boot", pad=PAD[0])

    def initialize(self, lazy="full", roots=(), root_mode="folders", wait=True, extra=None, noise=None):
        """roots: list of dict(uri, base, files)"""
        ca = {}
        if lazy in ("full", "props", "props2"):
            ca["resolveSupport"] = {"properties": {"full": ["edit"], "props": ["edit", "command"], "props2": ["data", "command", "edit"]}[lazy]}
        if lazy == "noedit":
            ca["resolveSupport"] = {"properties": ["command"]}
        if lazy in ("full", "props", "props2", "noedit", "dataonly"):
            ca["dataSupport"] = True
        if lazy == "nodata":
            ca["resolveSupport"] = {"properties": ["edit"]}
            ca["dataSupport"] = False
        caps = {} if lazy == "none" else {"textDocument": {"codeAction": ca}}
        for k, v in (noise or {}).items():   # other capabilities
            if isinstance(v, dict) and isinstance(caps.get(k), dict):
                caps[k] = dict(v, **caps[k])
            else:
                caps.setdefault(k, v)
        params = {"processId": None, "rootUri": None, "capabilities": caps}
        rs = list(roots)
        if root_mode == "folders":
            params["workspaceFolders"] = [{"uri": r["uri"], "name": "r%d" % i} for i, r in enumerate(rs)]
            params["rootUri"] = "file:///nonexistent-root"
            eff = rs
        elif root_mode == "rooturi":
            params["workspaceFolders"] = None
            if rs:
                params["rootUri"] = rs[0]["uri"]
            eff = rs[:1]
        elif root_mode == "both":
            params["workspaceFolders"] = [{"uri": r["uri"], "name": "r%d" % i} for i, r in enumerate(rs[1:])]
            if rs:
                params["rootUri"] = rs[0]["uri"]
            eff = rs[1:]
        else:
            eff = []
        if extra:
            params.update(extra)
        self.eff = eff
        i = self.request("initialize", {"lazy": lazy in ("full", "props", "props2"), "roots": [dict(r, files=dict(r["files"])) for r in eff]}, params)
        if wait:
            self.wait(i)
        return i

    def initialized(self):
        self.send({"jsonrpc": "2.0", "method": "initialized", "params": {}})
        self.ev(e="ntf", m="initialized", p={})

    def start(self, **k):
        self.boot()
        self.initialize(**k)
        self.initialized()

    # -- sending -----------------------------------------------------------------------
    def rid(self, i):
        return "r%d" % i if self.strid else i

    def files_changed(self):
        """Files were created or removed (the lists of the roots in use have been updated); nothing is pending"""
        self.ev(e="ntf", m="files", p={"roots": [dict(r, files=dict(r["files"])) for r in self.eff]})

    def request(self, m, p, params, lsp=None):
        self.nid += 1
        i = self.nid
        self.pending[i] = m
        self.ev(e="req", id=i, m=m, p=p)
        msg = {"jsonrpc": "2.0", "id": self.rid(i), "method": lsp or LSP[m]}
        if params is not None:
            msg["params"] = params
        self.send(msg)
        return i

    def notify(self, method, params, **ev):
        self.ev(**ev)
        msg = {"jsonrpc": "2.0", "method": method}
        if params is not None:
            msg["params"] = params
        self.send(msg)

    @staticmethod
    def text_event(uri, version, text, opaque):
        """opaque: a text beyond the specification (huge, or with unclassified characters)"""
        if opaque:
            return dict(e="ntf", m="opaque", p={"u": uri, "v": version})
        return dict(e="ntf", m="text", p={"u": uri, "v": version, "t": text, "json": json_table(text)})

    def open(self, uri, text, version=1, opaque=False, lang="hir"):
        self.notify("textDocument/didOpen",
                    {"textDocument": {"uri": uri, "languageId": lang, "version": version, "text": self.front + text}},
                    **self.text_event(uri, version, text, opaque))

    def change(self, uri, texts, version, opaque=False):
        """texts: the successive full texts of one notification"""
        if isinstance(texts, str):
            texts = [texts]
        if texts:
            ev = self.text_event(uri, version, texts[-1], opaque)
        else:
            ev = dict(e="ntf", m="nochange", p={"u": uri})
        self.notify("textDocument/didChange",
                    {"textDocument": {"uri": uri, "version": version},
                     "contentChanges": [{"text": self.front + t} for t in texts]}, **ev)

    def close(self, uri):
        self.notify("textDocument/didClose", {"textDocument": {"uri": uri}},
                    e="ntf", m="close", p={"u": uri})

    def cancel(self, i):
        self.notify("$/cancelRequest", {"id": self.rid(i)}, e="ntf", m="cancel", p={"id": i})

    def doc(self, m, uri, **extra):
        return self.request(m, dict({"u": uri}), dict({"textDocument": {"uri": uri}}, **extra))

    def at(self, m, uri, ln, ch, **extra):
        params = {"textDocument": {"uri": uri}, "position": {"line": ln + PAD[0], "character": ch}}
        p = {"u": uri, "line": ln, "ch": ch}
        if m == "references":
            params["context"] = {"includeDeclaration": extra.get("incl", False)}
        if m == "rename":
            params["newName"] = extra["name"]
            p["name"] = extra["name"]
        return self.request(m, p, params)

    def hints(self, uri, l1=0, c1=0, l2=1000000, c2=0):
        return self.request("hints", {"u": uri, "range": [l1, c1, l2, c2]}, {
            "textDocument": {"uri": uri},
            "range": {"start": {"line": l1 + PAD[0], "character": c1}, "end": {"line": l2 + PAD[0], "character": c2}}})

    def code_action(self, uri, l1, c1, l2=None, c2=None):
        l2 = l1 if l2 is None else l2
        c2 = c1 if c2 is None else c2
        return self.request("codeAction", {"u": uri, "range": [l1, c1, l2, c2]}, {
            "textDocument": {"uri": uri},
            "range": {"start": {"line": l1 + PAD[0], "character": c1}, "end": {"line": l2 + PAD[0], "character": c2}},
            "context": {"diagnostics": []}})

    def resolve(self, handle):
        return self.request("resolve", {"act": handle}, self.raw_actions[handle])

    def command(self, uri, func, cmd="visualize-cfg", wf=True, args=None):
        return self.request("command", {"u": uri, "f": func, "cmd": cmd, "wf": wf},
                            {"command": cmd, "arguments": [uri, func] if args is None else args})

    def reply(self, sid, ok=True):
        if sid in self.dots:
            self.dots.remove(sid)
        self.ev(e="reply", sid=sid, ok=ok)
        if ok:
            self.send({"jsonrpc": "2.0", "id": sid, "result": {}})
        else:
            self.send({"jsonrpc": "2.0", "id": sid, "error": {"code": -1, "message": "cannot show"}})

    # -- receiving ---------------------------------------------------------------------
    def norm(self, m, r):
        if m == "initialize":
            c = r["capabilities"]
            sync = c.get("textDocumentSync")
            if isinstance(sync, dict):
                sync = sync.get("change")
            feats = [f for f, k in FEATURES if c.get(k) not in (None, False)]
            if isinstance(c.get("renameProvider"), dict) and c["renameProvider"].get("prepareProvider"):
                feats.append("prepareRename")
            st = c.get("semanticTokensProvider") or {}
            self.legend = (st.get("legend") or {}).get("tokenTypes", [])
            if "tokens" in feats and not st.get("full"):
                feats.remove("tokens")
            cap = c.get("codeActionProvider")
            return {"sync": sync if isinstance(sync, int) else -1, "features": feats,
                    "resolve": bool(isinstance(cap, dict) and cap.get("resolveProvider")),
                    "commands": (c.get("executeCommandProvider") or {}).get("commands", []),
                    "legend": self.legend, "enc": c.get("positionEncoding") or "utf-16"}
        if r is None:
            return []
        if m == "tokens":
            d = r["data"]
            out, ln, ch = [], 0, 0
            if len(d) % 5:
                raise ValueError("token data")
            for i in range(0, len(d), 5):
                if d[i]:
                    ln, ch = ln + d[i], d[i + 1]
                else:
                    ch += d[i + 1]
                out.append([line(ln), ch, d[i + 2], self.legend[d[i + 3]] + (" with modifiers" if d[i + 4] else "")])
            return out
        if m in ("definition", "declaration"):
            return [n_link(x) for x in (r if isinstance(r, list) else [r])]
        if m == "references":
            return [{"u": x["uri"], "r": rng(x["range"])} for x in r]
        if m == "prepareRename":
            return [rng(r["range"] if "range" in r else r)]
        if m == "rename":
            return n_edit(r)
        if m == "codeAction":
            out = []
            for a in r:
                self.handles += 1
                self.raw_actions[self.handles] = a
                out.append({"title": a["title"], "hasEdit": a.get("edit") is not None,
                            "edits": n_edit(a.get("edit") or {}), "handle": self.handles})
            return out
        if m == "resolve":
            return {"title": r["title"], "hasEdit": r.get("edit") is not None,
                    "edits": n_edit(r.get("edit") or {})}
        if m == "symbols":
            out = []
            for s in r:
                n_sym(s, out)
            return out
        if m == "folding":
            return [[line(f["startLine"]), line(f["endLine"]), f.get("collapsedText") or ""] for f in r]
        if m == "lens":
            return [{"r": rng(x["range"]), "title": x["command"]["title"], "cmd": x["command"]["command"],
                     "args": [a if isinstance(a, str) else json.dumps(a) for a in x["command"].get("arguments") or []]} for x in r]
        if m == "hints":
            return [{"p": [line(h["position"]["line"]), h["position"]["character"]],
                     "parts": [n_part(p) for p in h["label"]] if isinstance(h["label"], list)
                     else [{"value": h["label"], "loc": [], "tip": ""}]} for h in r]
        return []

    def handle(self, msg):
        if "method" in msg:
            try:
                self.handle_call(msg)
            except (KeyError, TypeError, ValueError, IndexError, AttributeError) as ex:
                self.ev(e="odd", m="shape of %s: %r" % (msg["method"], ex))
            return
        self.handle_response(msg)

    def handle_call(self, msg):
        if msg["method"] == "textDocument/publishDiagnostics":
            p = msg["params"]
            self.ndiag += 1
            v = p.get("version")
            self.ev(e="diag", u=p["uri"], v=-1 if v is None else v,
                    diags=[n_diag(d, p["uri"]) for d in p["diagnostics"]])
        elif msg["method"] == "hyperir/showDot" and "id" in msg:
            p = msg["params"]
            self.dots.append(msg["id"])
            self.ev(e="dot", sid=msg["id"], title=p["title"], edges=n_dot(p["dotGraph"]))
        elif msg["method"] in ("window/logMessage", "window/showMessage", "telemetry/event", "$/logTrace"):
            pass
        else:
            self.ev(e="odd", m=msg["method"])

    def handle_response(self, msg):
        i = msg.get("id")
        if self.strid and isinstance(i, str) and re.match(r"r\d+$", i):
            i = int(i[1:])
        m = self.pending.pop(i, None)
        if m is None:
            self.ev(e="odd", m="response %r" % (i,))
            return
        if "error" in msg:
            r = {"err": msg["error"]["code"], "nul": False, "v": []}
            if r["err"] == 0:
                r["err"] = 1
        else:
            try:
                r = {"err": 0, "nul": msg.get("result") is None, "v": self.norm(m, msg.get("result"))}
            except Exception as ex:  # an answer of an unexpected shape
                r = {"err": 1, "nul": False, "v": []}
                self.ev(e="odd", m="shape of %s: %r" % (m, ex))
        self.results[i] = r
        self.ev(e="res", id=i, r=r)

    def died(self, why):
        self.ev(e="dead", why=why)
        self.dead = True
        self.pending.clear()
        self.dots.clear()
        self.s.kill()
        raise Dead(why)

    def pump(self, timeout=None):
        """Handles one message of the server."""
        try:
            self.handle(self.s.recv(timeout))
        except ServerDied as ex:
            self.died("the server died: " + str(ex)[-600:])
        except ServerHung:
            if timeout is None:
                self.died("no answer within %ds: %s" % (self.timeout, self.s.stderr_tail()[-600:]))
            raise

    def poll(self, seconds):
        """Handles the messages which arrive within a time."""
        end = time.time() + seconds
        while True:
            left = end - time.time()
            if left <= 0:
                return
            try:
                self.pump(left)
            except ServerHung:
                return

    def wait(self, *ids):
        while any(i in self.pending for i in ids):
            self.pump()
        return [self.results.get(i) for i in ids]

    def wait_all(self):
        while self.pending:
            self.pump()

    def wait_dots(self, n):
        while len(self.dots) < n:
            self.pump()

    def wait_diags(self, n):
        while self.ndiag < n:
            self.pump()

    def barrier(self):
        """All messages sent so far have been processed and their answers received."""
        self.wait_all()
        # the server handles messages in order; notifications in front of this request are done
        # when it is answered, and what they publish is sent before or soon after
        ntexts = 0
        k = len(self.rec) - 1
        while self.rec[k]["e"] != "boot":
            k -= 1
        down = False
        for ev in self.rec[k:]:
            if ev["e"] == "req" and ev["m"] == "shutdown":
                down = True     # later texts are ignored
            elif ev["e"] == "ntf" and ev["m"] in ("text", "opaque") and not down:
                ntexts += 1
            elif ev["e"] == "diag":
                ntexts -= 1
        while ntexts > 0:
            n0 = self.ndiag
            self.pump()
            ntexts -= self.ndiag - n0

    def exit(self, close=True, timeout=60):
        self.notify("exit", None, e="ntf", m="exit", p={})
        if close:
            self.s.close_stdin()
        try:
            self.s.p.wait(timeout)
            self.ev(e="ended", code=self.s.p.returncode)
        except Exception:
            self.ev(e="dead", why="the server did not exit")
        self.s.kill()

    def end(self, shutdown=True):
        """Orderly end of the session."""
        self.barrier()
        self.ev(e="end")
        self.results.clear()
        if shutdown:
            self.wait(self.request("shutdown", {}, None))
            self.exit()
        self.s.kill()
