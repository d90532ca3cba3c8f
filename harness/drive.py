"""Scenarios: what the client does in the sessions of a shard.

A scenario is a function (ctx, **parameters); it drives real server processes and records
events.  It never judges an answer.
"""
import json
import os
import random
import re
import shutil
import urllib.parse

from gen import Gen, ODD_NUM, UNI_LETTERS, UNI_OTHER
from lsp import ServerHung
from session import Dead, LSP, Session

LAZY = ["full", "none", "props", "props2", "noedit", "dataonly", "nodata"]
POS = ("definition", "declaration", "references", "prepareRename", "rename", "codeAction")
FLAT = ("tokens", "symbols", "folding", "lens", "hints")


class Stop(Exception):
    """The server hangs: no use to go on with this shard"""


class Ctx:
    def __init__(self, binary, seed, scratch, timeout=60.0):
        self.binary, self.seed, self.scratch, self.timeout = binary, seed, scratch, timeout
        self.rec, self.raw = [], []
        self.g = Gen(seed)
        self.r = random.Random(seed * 7919 + 13)
        self.docs = 0
        self.sessions = 0

    def gen(self, profile=None):
        """a generator with another profile"""
        return Gen(self.r.randrange(1 << 30), profile)

    def session(self, pad=0, fill=""):
        s = Session(self.binary, self.rec, timeout=self.timeout, pad=pad, fill=fill, strid=self.r.random() < 0.15)
        s.raw = self.raw
        self.sessions += 1
        return s

    def run(self, body, pad=0, fill="", **start):
        """One session; a crash of the server ends it."""
        s = self.session(pad, fill)
        try:
            s.start(**start)
            body(s)
            s.end()
        except Dead as ex:
            if str(ex).startswith("no answer"):
                raise Stop()
        finally:
            if s.s:
                s.s.kill()


# -- requests about one document ----------------------------------------------------------------
def pos_query(s, g, m, u, line, ch, name=None, resolve=True):
    if m == "codeAction":
        x = g.r.random()
        if x < 0.04:
            return s.code_action(u, line, ch, line, ch + 1)
        i = s.code_action(u, line, ch)
        if resolve:
            r = s.wait(i)[0]
            for a in (r or {"v": []})["v"]:
                if not a["hasEdit"]:
                    s.resolve(a["handle"])
        return i
    if m == "rename":
        return s.at(m, u, line, ch, name=g.newname() if name is None else name)
    return s.at(m, u, line, ch, incl=g.r.random() < 0.5)


def some_hints(s, g, u, text):
    """Inlay hints, sometimes for a part of the document only"""
    r = g.r
    if r.random() < 0.75:
        return s.hints(u)
    n = text.count("\n") + 1
    a, b = sorted([(r.randrange(n + 1), r.choice([0, 0, 3, 9, 100])), (r.randrange(n + 2), r.choice([0, 0, 3, 9, 100]))])
    return s.hints(u, a[0], a[1], b[0], b[1])


def query_doc(s, g, u, text, npos=6, flat=FLAT, pos=POS, rx=None, commands=0.7, name=None):
    for m in flat:
        some_hints(s, g, u, text) if m == "hints" else s.doc(m, u)
    for _ in range(npos):
        line, ch = g.position(text, rx) if rx else g.position(text)
        for m in pos:
            nm = name() if name else None
            if m == "rename" and g.r.random() < 0.15:   # to a name which exists, perhaps its own
                nm = g.r.choice(re.findall(r"[@%!]?[\w:]+", text[:3000]) or ["x"])
                nm = g.r.choice([nm, nm, nm.lstrip("@%!"), nm.swapcase() if nm.isascii() else nm])
            pos_query(s, g, m, u, line, ch, name=nm)
    if commands and g.r.random() < commands:
        fs = sorted(set(re.findall(r"define[^\n@]*(@[^\s(]*)", text)))
        if not fs or g.r.random() < 0.15:
            fs = sorted(set(re.findall(r"@[\w:]*", text))) or ["@nofunc"]
        show(s, g, u, g.r.choice(fs))


def show(s, g, u, f):
    """A visualize-cfg command, with the client's reply"""
    i = s.command(u, f)
    while i in s.pending and not s.dots:
        s.pump()
    for d in list(s.dots):
        s.reply(d, g.r.random() < 0.8)


def random_text(g, kinds):
    k = g.r.choice(kinds)
    return getattr(g, k)()


# -- scenarios -------------------------------------------------------------------------------------
def docs(ctx, n, profile=None, kinds=("doc",), per=5, npos=5, flat=FLAT, pos=POS, rx=None, commands=0.5, lazy=LAZY, name=None):
    """n documents, several per session, with requests about each of them"""
    g = ctx.gen(profile)
    done = 0
    while done < n:
        def body(s):
            nonlocal done
            for j in range(per):
                done += 1
                ctx.docs += 1
                u = "file:///w/d%d.hir" % j
                t = random_text(g, kinds)
                s.open(u, t, j)
                query_doc(s, g, u, t, npos, flat, pos, rx, commands, name=getattr(g, name) if name else None)
        ctx.run(body, lazy=g.r.choice(lazy))


EXTREMES = [("huge", dict(fam=f, n=n)) for n in (257, 1030) for f in Gen.FAMS] + [("long", dict(what=w, n=n)) for n in (257, 65537) for w in Gen.LONGS]


def extremes(ctx, n, profile=None, kinds=None, per=3, npos=4, flat=FLAT, pos=POS, rx=None, commands=0.7, lazy=LAZY, name=None):
    """Each family of big documents, each kind of long token, distributed over the shards"""
    g = ctx.gen(profile)
    mine = EXTREMES[ctx.seed % 1000 % 8::8][:n]
    for k in range(0, len(mine), per):
        def body(s):
            for j, (m, a) in enumerate(mine[k:k + per]):
                ctx.docs += 1
                u = "file:///w/e%d.hir" % j
                t = getattr(g, m)(**a)
                s.open(u, t, j)
                nm = lambda: getattr(g, name)() if name else None
                lines = re.split(r"\r\n|\n|\r", t)
                at = [(i, x) for i, l in list(enumerate(lines))[:2] + list(enumerate(lines))[-6:] for x in [y.start() for y in re.finditer(r"[@%!]?[\w:]+", l)][-3:]]
                for i, c in g.r.sample(at, min(len(at), npos)):
                    for q in pos:
                        pos_query(s, g, q, u, i, len(lines[i][:c].encode("utf-16-le")) // 2, name=nm())
                query_doc(s, g, u, t, 1 if npos else 0, flat, pos, rx, commands, name=getattr(g, name) if name else None)
        ctx.run(body, lazy=g.r.choice(lazy))


def padded(ctx, n, kinds=("clean", "messy", "scoped"), npos=4, flat=FLAT, pos=POS, pads=(120, 254, 255, 256, 1000, 4095), per=2, fill=("",)):
    """Documents behind many empty lines"""
    g = ctx.gen()
    for k in range(n):
        def body(s):
            for j in range(per):
                ctx.docs += 1
                u = "file:///w/p%d.hir" % j
                t = random_text(g, kinds)
                s.open(u, t, j)
                query_doc(s, g, u, t, npos, flat, pos, None, 0.5)
        ctx.run(body, pad=g.r.choice(pads), fill=g.r.choice(fill), lazy=g.r.choice(LAZY))


def mcdocs(ctx, items, npos=4, flat=FLAT, pos=POS, sweep=False, commands=0.3, lazy=LAZY, per=60, name=None):
    """Documents enumerated by TLC (a list of texts)"""
    g = ctx.gen()
    for k in range(0, len(items), per):
        def body(s):
            for v, t in enumerate(items[k:k + per]):
                ctx.docs += 1
                u = "file:///w/m%d.hir" % (v % 3)
                (s.open if v < 3 else s.change)(u, t, v + 1)
                if sweep:
                    query_doc(s, g, u, t, 0, flat, (), None, commands)
                    sweep_positions(s, g, u, t, pos)
                else:
                    query_doc(s, g, u, t, npos, flat, pos, None, commands, name=getattr(g, name) if name else None)
        ctx.run(body, lazy=g.r.choice(lazy))


def sweep_positions(s, g, u, t, methods=("definition", "prepareRename"), limit=80):
    """Every position of the document, and some beyond"""
    n = 0
    for i, l in enumerate(re.split(r"\r\n|\n|\r", t) + [""]):
        for c in range(len(l.encode("utf-16-le")) // 2 + 2):
            n += 1
            if n > limit:
                return
            for m in methods:
                pos_query(s, g, m, u, i, c, resolve=False)


def sweeps(ctx, n, profile=None, kinds=("doc",), methods=("definition", "prepareRename"), flat=FLAT):
    g = ctx.gen(profile)
    for k in range(0, n, 5):
        def body(s):
            for j in range(5):
                ctx.docs += 1
                t = random_text(g, kinds)
                u = "untitled:Untitled-%d" % j
                s.open(u, t, 1)
                query_doc(s, g, u, t, 0, flat, (), None, 0)
                sweep_positions(s, g, u, t, methods, limit=150)
        ctx.run(body)


URIS = ["file:///w/a.hir", "file:///w/b.hir", "file:///w/A.hir", "untitled:Untitled-1", "file:///w/a%20b.hir", "file:///w/a.hir.bak",
        "vscode-remote://ssh-remote+host/w/a.hir", "file:///w/sub/a.hir", "git:/w/a.hir?ref=HEAD", "git:/w/a.hir?ref=main",
        "file:///w/%C3%A4.hir", "file:///x/a.hir", "inmemory://model/1", "file:///w/a", "file:///w/a.hir#L1",
        "file:///w/%c3%a4.hir", "file://host/w/a.hir", "file:///w/a.hir?x=1", "file:///w/a.hir/", "file:///w/a.hi", "untitled:Untitled-11",
        "file:///w/" + "long/" * 60 + "a.hir", "file:///w/" + "long/" * 60 + "b.hir", "file:///w/a.hir%20", "file2:///w/a.hir"]
SECTIONS = ["file:///w/unknown.hir", "untitled:Untitled-77", "file:///W/a.hir"]


def one_query(s, g, u, text):
    m = g.r.choice(FLAT + POS + ("definition", "references", "codeAction"))
    if m == "hints":
        return some_hints(s, g, u, text)
    if m in FLAT:
        return s.doc(m, u)
    line, ch = g.position(text)
    return pos_query(s, g, m, u, line, ch, resolve=False)


class Docs:
    """What the client has open (used to send sensible requests, not to judge answers)"""

    def __init__(self, s, g):
        self.s, self.g = s, g
        self.text, self.ver, self.open = {}, {}, {}

    def put(self, u, texts):
        """opens or changes a document"""
        r = self.g.r
        if not self.open.get(u):
            self.ver[u] = r.choice([0, 1, 1, 1, 2, 7, -3, 1000000, 65535, -1000000, 2147000000, -2147483648])
            self.s.open(u, texts[-1], self.ver[u], lang=r.choice(["hir", "hir", "plaintext", "hyper-ir"]))
            self.open[u] = True
        else:
            self.ver[u] += r.choice([1, 1, 1, 2, 50])
            self.s.change(u, texts, self.ver[u])
        if texts:
            self.text[u] = texts[-1]

    def close(self, u):
        if self.open.get(u):
            self.s.close(u)
            self.open[u] = False


def variant(g, t):
    """A text which is close to another one, as in editing"""
    r = g.r
    x = r.random()
    ls = t.split("\n")
    if x < 0.3 and len(ls) > 1:
        i = r.randrange(len(ls))
        del ls[i]
    elif x < 0.6:
        ls.insert(r.randrange(len(ls) + 1), r.choice(["@new = 1", "# c", "foo", "", "!9 = 5", "define void @zz() {", "}", "  br a"]))
    elif x < 0.8 and ls:
        i = r.randrange(len(ls))
        g.uni = True
        ls[i] = g.mutate_line(ls[i])
    elif x < 0.82:
        y = r.random()
        if y < 0.2:
            return r.choice(["", "", "\n", " ", "\r\n"])
        if y < 0.7 and " " in t:    # a blank moves, or another kind of white space
            bs = [i for i, c in enumerate(t) if c == " "]
            i = r.choice(bs)
            u = t[:i] + r.choice(["", "\t", "  ", "\n"]) + t[i + 1:] if r.random() < 0.5 else t[:i] + t[i + 1:]
            js = [m.end() for m in re.finditer(r"[\n ,(]", u)] or [0]
            j = r.choice(js)
            return u[:j] + " " + u[j:]
        return t
    elif x < 0.87:
        # the same lines, words or characters in another order
        y = r.random()
        if y < 0.4 and len(ls) > 1:
            i, j = r.randrange(len(ls)), r.randrange(len(ls))
            ls[i], ls[j] = ls[j], ls[i]
            return "\n".join(ls)
        ws = list(re.finditer(r"[@%!]?[\w:]+" if y < 0.8 else r"[a-z0-9]", t))
        if len(ws) < 2:
            return t
        a, b = sorted(r.sample(ws, 2), key=lambda m: m.start())
        if "\\" in t[max(0, a.start() - 1):a.end()] + t[max(0, b.start() - 1):b.end()]:
            return t
        return t[:a.start()] + b.group() + t[a.end():b.start()] + a.group() + t[b.end():]
    elif x < 0.93:
        # of the same size
        ds = [i for i, c in enumerate(t) if c.isascii() and c.isalnum() and not (i and t[i - 1] == "\\")]
        for i in r.sample(ds, min(len(ds), r.choice([1, 1, 2, 5]))):
            t = t[:i] + r.choice("0123456789" if t[i].isdigit() else "abvx" if t[i].islower() else "AB") + t[i + 1:]
        return t
    else:
        a, b = "%s" % r.choice(["v1", "g", "body", "f", "1"]), r.choice(["v2", "x", "bb_1", "2"])
        return t.replace(a, b)
    return "\n".join(ls)


def history(ctx, n, steps=14, nuri=3, profile=None, kinds=("clean", "messy"), pipeline=0.8, size=None, probe_unknown=0.15, allq=0.25):
    """Edit histories over several documents with requests in between, mostly without waiting"""
    g = ctx.gen(profile)
    r = g.r
    for _ in range(n):
        def body(s):
            us = r.sample(URIS, nuri)
            D = Docs(s, g)
            for _ in range(r.randrange(steps // 2, steps + 1)):
                u = r.choice(us)
                x = r.random()
                new = lambda: (variant(g, D.text[u]) if u in D.text and r.random() < 0.5
                               else variant(g, D.text[r.choice(sorted(D.text))]) if D.text and r.random() < 0.3
                               else getattr(g, r.choice(kinds))(r.choice([1, 2, 3, 4]) if size is None else size))
                if x < 0.62 or not D.open.get(u):
                    k = r.choices([1, 2, 3, 0], [8, 2, 1, 0.6 if D.open.get(u) else 0])[0]
                    D.put(u, [new() for _ in range(k)])
                elif x < 0.7:
                    D.close(u)
                for _ in range(r.randrange(0, 4)):
                    v = r.choice(us + (SECTIONS if r.random() < probe_unknown else []))
                    if v in D.open and not D.open[v]:
                        continue
                    one_query(s, g, v, D.text.get(v, D.text.get(u, "@g = 1\n")))
                if r.random() < allq * 0.3 and D.open.get(u):
                    query_doc(s, g, u, D.text[u], 2)
                if r.random() > pipeline:
                    s.wait_all()
            # finally, everything about every document
            for u in us + r.sample(SECTIONS, 1):
                if u not in D.open or D.open[u]:
                    query_doc(s, g, u, D.text.get(u, "@g = 1\n"), 2, commands=0.4)
        ctx.run(body, lazy=r.choice(LAZY))
        ctx.docs += 1


def crowd(ctx, n, sizes=(12, 20, 35, 70, 135, 270)):
    """Many open documents which share names"""
    g = ctx.gen(dict(uni=0.1))
    r = g.r
    for _ in range(n):
        def body(s):
            D = Docs(s, g)
            us = ["%s%d%s" % (r.choice(["file:///w/x", "file:///w/", "untitled:U-", "file:///w/sub/x"]), i, r.choice([".hir", "", ".hir"])) for i in range(r.choice(sizes))]
            us = sorted(set(us))
            base = g.scoped(2)
            for u in us:
                D.put(u, [variant(g, base) if r.random() < 0.7 else g.clean(1)])
                if r.random() < 0.3:
                    v = r.choice(sorted(D.open))
                    one_query(s, g, v, D.text[v])
            for _ in range(len(us)):
                v = r.choice(us)
                x = r.random()
                if x < 0.15 or not D.open[v]:
                    D.put(v, [variant(g, D.text[v])])
                elif x < 0.2:
                    D.close(v)
                    continue
                one_query(s, g, v, D.text[v])
                if x > 0.9:
                    for m in FLAT:
                        w = r.choice(us)
                        if D.open[w]:
                            some_hints(s, g, w, D.text[w]) if m == "hints" else s.doc(m, w)
        ctx.run(body, lazy=r.choice(LAZY))
        ctx.docs += 1


def marathon(ctx, n, sizes=(60, 130, 300)):
    """Very many edits of one document"""
    g = ctx.gen(dict(uni=0.15))
    r = g.r
    for _ in range(n):
        def body(s):
            u = r.choice(URIS)
            D = Docs(s, g)
            base = r.choice([g.scoped, g.clean, g.flow])(2)
            D.put(u, [base])
            k = r.choice(sizes)
            for i in range(k):
                t = variant(g, D.text[u])
                D.put(u, [base if len(t) > 1500 else t])
                if r.random() < 0.25 or i > k - 5:
                    one_query(s, g, u, D.text[u])
                if r.random() < 0.02:
                    D.close(u)
            if D.open[u]:
                query_doc(s, g, u, D.text[u], 2)
        ctx.run(body, lazy=r.choice(LAZY))
        ctx.docs += 1


def histories(ctx, items, profile=None):
    """Histories enumerated by TLC (GenHistory)"""
    g = ctx.gen(profile)
    r = g.r
    for w in items:
        def body(s):
            us = dict(zip("ab", r.sample(URIS, 2)))
            base = g.clean(r.choice([1, 2, 3]))
            texts = {1: base, 2: variant(g, base) if r.random() < 0.5 else g.doc()}
            D = Docs(s, g)
            for op in w:
                u = us[op["u"]]
                if op["k"] == "close":
                    D.close(u)
                else:
                    D.put(u, [texts[t] for t in op["t"]])
                for v in us.values():
                    if D.open.get(v) or v not in D.open:
                        for _ in range(r.choice([0, 1, 1, 2])):
                            one_query(s, g, v, D.text.get(v, base))
            for v in us.values():
                if D.open.get(v) or v not in D.open:
                    for m in ("symbols", "tokens"):
                        s.doc(m, v)
                    for _ in range(3):
                        one_query(s, g, v, D.text.get(v, base))
        ctx.run(body, lazy=r.choice(LAZY))
        ctx.docs += 1


# -- life cycle -------------------------------------------------------------------------------------
UNKNOWN_METHODS = ["textDocument/hover", "textDocument/completion", "textDocument/formatting", "foo/bar", "workspace/symbol", "hyperir/showDot",
                   "textDocument/implementation", "textDocument/typeDefinition", "textDocument/semanticTokens/range", "textDocument/signatureHelp"]
ODD_NOTES = [("$/setTrace", {"value": "off"}), ("workspace/didChangeConfiguration", {"settings": {}}), ("foo/note", {}), ("$/foo", None),
             ("textDocument/didSave", {"textDocument": {"uri": "file:///w/a.hir"}}), ("workspace/didChangeWatchedFiles", {"changes": []}),
             ("window/workDoneProgress/cancel", {"token": 1}), ("exit2", None)]


NOISE = [{"general": {"positionEncodings": ["utf-8", "utf-16"]}}, {"general": {"positionEncodings": ["utf-32", "utf-16"]}},
         {"general": {"positionEncodings": ["utf-16"]}}, {"textDocument": {}}, {"workspace": {"workspaceFolders": True, "applyEdit": True}},
         {"textDocument": {"synchronization": {"didSave": True}, "rename": {"prepareSupport": True}, "definition": {"linkSupport": False}}},
         {"textDocument": {"inlayHint": {"resolveSupport": {"properties": ["edit", "tooltip"]}}, "documentSymbol": {"hierarchicalDocumentSymbolSupport": True},
                           "semanticTokens": {"requests": {"full": {"delta": True}, "range": True}, "tokenTypes": ["type"], "tokenModifiers": [],
                                              "formats": ["relative"]}}},
         {"window": {"workDoneProgress": True}}, {"experimental": {"x": 1}}]
EXTRA = [{"clientInfo": {"name": "x"}}, {"clientInfo": {"name": "Visual Studio Code", "version": "1.80"}, "locale": "de"}, {"trace": "verbose"},
         {"initializationOptions": {"a": [1]}}, {"processId": 1}, {"rootPath": "/w"}]


def bad_command(s, g, u="file:///w/a.hir"):
    """A command which does not exist or has bad arguments, and the replies to graphs which it shows nevertheless"""
    r = g.r
    a = [u if y == "file:///w/a.hir" else y for y in r.choice(BADARGS)]
    cmd = r.choice(["visualize-cfg"] * 4 + ["foo", "", "visualize-CFG", "visualize-cfg2", "visualize-cfg.beside", "visualize", "xvisualize-cfg", " visualize-cfg", "visualize_cfg"])
    if cmd != "visualize-cfg" and r.random() < 0.6:   # a proper call, but for the command
        a = [u, r.choice(["@f", "@f", "@g", "@nope"])]
    if cmd == "visualize-cfg" and len(a) == 2 and all(isinstance(y, str) for y in a):
        i = s.command(a[0], a[1])
    else:
        i = s.command("", "", cmd=cmd, wf=False, args=a)
    while i in s.pending:
        s.pump()
        for d in list(s.dots):
            s.reply(d, True)


def unknown(s, g, u, t="@g = 1\n"):
    m = g.r.choice(UNKNOWN_METHODS)
    line, ch = g.position(t)
    pos = {"line": line, "character": ch}
    p = {"textDocument": {"uri": u}, "position": pos, "query": "x", "range": {"start": pos, "end": pos}, "options": {"tabSize": 2, "insertSpaces": True}}
    if m in ("foo/bar", "hyperir/showDot"):
        p = g.r.choice([p, {}, None])
    return s.request("unknownMethod", {}, p, lsp=m)


def oddnote(s, g):
    m, p = g.r.choice(ODD_NOTES)
    s.notify(m, p, e="ntf", m="other", p={})


def life(ctx, items):
    """Sequences enumerated by TLC (GenLife): the client waits for each answer"""
    g = ctx.gen()
    r = g.r
    for w in items:
        s = ctx.session()
        try:
            s.boot()
            u = r.choice(URIS[:1] + URIS)
            t = "define void @f() {\na:\n  br a\n}\n" + (g.clean(1) if r.random() < 0.3 else "")
            v = 0
            opened = False
            exited = False
            for op in w:
                if op.startswith("init-"):
                    s.initialize(lazy=r.choice(["full", "props", "props2"]) if op == "init-full" else r.choice(["none", "noedit", "dataonly", "nodata"]),
                                 root_mode=r.choice(["folders", "rooturi", "none", "both"]),
                                 noise=r.choice(NOISE) if r.random() < 0.6 else None, extra=r.choice(EXTRA) if r.random() < 0.5 else None)
                elif op == "initialized":
                    s.initialized()
                elif op == "text":
                    v += 1
                    if opened:
                        s.change(u, t, v)
                    else:
                        s.open(u, t, v)
                    opened = True
                elif op == "query":
                    s.wait(one_query(s, g, u, t))
                elif op == "command":
                    i = s.command(u, "@f")
                    while i in s.pending:
                        s.pump()
                        for d in list(s.dots):
                            s.reply(d, True)
                elif op == "unknown":
                    s.wait(unknown(s, g, u, t))
                elif op == "badcommand":
                    bad_command(s, g, u)
                elif op == "oddnote":
                    oddnote(s, g)
                elif op == "shutdown":
                    s.wait(s.request("shutdown", {}, None))
                elif op == "exit":
                    s.exit()
                    exited = True
            if not exited:
                settle(s)
                s.ev(e="end")
                s.exit()
        except Dead as ex:
            if str(ex).startswith("no answer"):
                raise Stop()
        finally:
            if s.s:
                s.s.kill()


def settle(s):
    """Diagnostics of texts which were sent while the server was ready"""
    ready, n = False, 0
    k = len(s.rec) - 1
    while s.rec[k]["e"] != "boot":
        k -= 1
    for ev in s.rec[k:]:
        if ev["e"] == "req" and ev["m"] == "initialize":
            ready = True if ready is False else ready
        elif ev["e"] == "req" and ev["m"] == "shutdown" and ready:
            ready = None
        elif ev["e"] == "ntf" and ev["m"] in ("text", "opaque") and ready:
            n += 1
        elif ev["e"] == "diag":
            n -= 1
    while n > 0:
        n0 = s.ndiag
        s.pump()
        n -= s.ndiag - n0


def lifelong(ctx, n):
    """Random longer life cycles, with capabilities and workspace folders of all kinds"""
    g = ctx.gen()
    r = g.r
    items = []
    for _ in range(n):
        w = []
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            w.append(r.choice(["text", "query", "command", "badcommand", "unknown", "oddnote", "initialized", "shutdown"]))
        w.append(r.choice(["init-full", "init-none"]))
        if r.random() < 0.7:
            w.append("initialized")
        for _ in range(r.randrange(0, 12)):
            w.append(r.choice(["text", "query", "query", "command", "badcommand", "badcommand", "unknown", "oddnote", "initialized", "init-full", "init-none"]))
        if r.random() < 0.7:
            w.append("shutdown")
            for _ in range(r.choice([0, 1, 2, 4])):
                w.append(r.choice(["text", "query", "command", "badcommand", "unknown", "oddnote", "initialized", "init-full", "shutdown"]))
        w.append("exit")
        items.append(w)
    life(ctx, items)


# -- schedules ----------------------------------------------------------------------------------------
def schedules(ctx, items, profile=None):
    """Behaviours of ServerLoop (GenSession): the order of the client's messages, and of those it
    waits for, is that of the model"""
    g = ctx.gen(profile)
    r = g.r
    for hist in items:
        def body(s):
            us = dict(zip(sorted({h["u"] for h in hist if h["u"]}), r.sample(URIS, 3)))
            tab = {}
            D = Docs(s, g)
            ids, cmds = {}, {}

            def text(t):
                if t not in tab:
                    tab[t] = "define void @f() {\na:\n  br %s\nb%d:\n  br a\n}\n" % (r.choice(["a", "b%d" % t]), t) + \
                        (g.clean(2) if r.random() < 0.5 else "@g%d = 1\n" % t)
                return tab[t]
            for h in hist:
                k = h["k"]
                u = us.get(h["u"])
                if k == "text":
                    ts = [text(h["t"])]
                    if D.open.get(u) and r.random() < 0.2:
                        ts.insert(0, text(9))
                    D.put(u, ts)
                elif k == "query":
                    ids[h["id"]] = one_query(s, g, u, D.text.get(u, "define void @f() {\n}\n"))
                elif k == "cmd":
                    ids[h["id"]] = cmds[h["id"]] = s.command(u, "@f")
                elif k == "down":
                    ids[h["id"]] = s.request("shutdown", {}, None)
                elif k == "cancel":
                    s.cancel(ids[h["id"]])
                elif k == "reply":
                    if s.dots:
                        s.reply(s.dots[0], r.random() < 0.8)
                elif k == "recv-show":
                    n = len(s.dots)
                    while len(s.dots) <= n and len([i for i in cmds.values() if i in s.pending]) > len(s.dots):
                        s.pump()
                elif k == "recv-answer":
                    i = ids[h["id"]]
                    if h["id"] not in cmds or not s.dots:
                        if h["id"] in cmds and i in s.pending:
                            continue   # its graph might not even have been shown yet
                        s.wait(i)
                elif k == "recv-diag":
                    pass
            # everything else is answered even though the client did not reply
            s.wait(*[i for i in ids.values() if i not in cmds.values()])
            for u in us.values():
                if D.open.get(u) and not any(h["k"] == "down" for h in hist):
                    i = one_query(s, g, u, D.text[u])
                    s.wait(i)
                    D.put(u, [text(r.choice([1, 2]))])
                    s.wait(s.doc("symbols", u))
            drain(s, g)
        ctx.run(body, lazy=r.choice(LAZY))
        ctx.docs += 1


def drain(s, g):
    """The client replies to everything which the server asks"""
    while s.pending or s.dots:
        for d in list(s.dots):
            s.reply(d, g.r.random() < 0.8)
        if s.pending:
            s.pump()
    # requests of the server which were on their way
    s.poll(0.0)


def storms(ctx, n, profile=None):
    """Up to three unanswered graphs, edits, cancellations and requests in random order"""
    g = ctx.gen(profile)
    r = g.r
    for _ in range(n):
        def body(s):
            us = r.sample(URIS, 2)
            D = Docs(s, g)
            ids, cmds = [], []
            for u in us:
                D.put(u, ["define void @f%d() {\na:\n  br a\n}\n" % r.randrange(3) + g.clean(2)])
            for _ in range(r.randrange(8, 30)):
                u = r.choice(us)
                x = r.random()
                if x < 0.25:
                    D.put(u, [variant(g, D.text[u]) if r.random() < 0.6 else "define void @f%d() {\n}\n" % r.randrange(3)])
                elif x < 0.4 and len([i for i in cmds if i in s.pending]) < 3:
                    i = s.command(u, "@f%d" % r.randrange(3))
                    cmds.append(i)
                elif x < 0.5 and s.pending:
                    s.cancel(r.choice(sorted(s.pending)))
                elif x < 0.55:
                    s.cancel(r.choice([0, 999999, 1]))
                elif x < 0.65 and s.dots:
                    s.reply(r.choice(s.dots), r.random() < 0.7)
                elif x < 0.72 and ids:
                    s.wait(*ids)
                elif x < 0.76:
                    s.poll(0.002)
                elif x < 0.8:
                    ids.append(unknown(s, g, u))
                else:
                    ids.append(one_query(s, g, u, D.text[u]))
            s.wait(*ids)
            if r.random() < 0.25:   # shutdown is answered, too, and the graphs are still acknowledged
                s.wait(s.request("shutdown", {}, None))
                if r.random() < 0.5:
                    s.wait(one_query(s, g, us[0], D.text[us[0]]))
            drain(s, g)
        ctx.run(body, lazy=r.choice(LAZY))
        ctx.docs += 1


def patience(ctx, n, pauses=(0.03, 0.1, 0.3, 0.8), graphs=2):
    """A client which takes its time: nothing happens just because time passes"""
    g = ctx.gen(dict(uni=0.1))
    r = g.r
    for _ in range(n):
        def body(s):
            us = r.sample(URIS, 3)
            D, cmds = Docs(s, g), []
            for u in us:
                D.put(u, ["define void @f() {\na:\n  br a\n}\n" + g.clean(2)])
            for k, p in enumerate(pauses):
                u = r.choice(us)
                x = r.random()
                if len([1 for i in s.pending if i in cmds]) < graphs and x < 0.8 and D.open[u]:
                    cmds.append(s.command(u, "@f"))
                for v in us:
                    if r.random() < 0.4:
                        D.close(v)
                        if r.random() < 0.3:
                            s.poll(r.choice([0.001, 0.01, 0.05]))
                    if r.random() < 0.8 or not D.open[v]:
                        D.put(v, [variant(g, D.text[v])])
                    if r.random() < 0.3:
                        D.put(v, [variant(g, D.text[v])])
                s.poll(p)
                for v in us:
                    if D.open[v]:
                        query_doc(s, g, v, D.text[v], 1, commands=0)
                if s.dots and r.random() < 0.5:
                    s.reply(r.choice(s.dots), r.random() < 0.7)
            drain(s, g)
        ctx.run(body, lazy=r.choice(LAZY))
        ctx.docs += 1


def bursts(ctx, n):
    """Many messages at once, while the client does not read"""
    g = ctx.gen(dict(uni=0.1))
    r = g.r
    for _ in range(n):
        def body(s):
            us = r.sample(URIS, 2)
            D = Docs(s, g)
            base = g.clean(3)
            for k in range(r.choice([40, 120, 250])):
                u = r.choice(us)
                if not D.open.get(u) or r.random() < 0.12:
                    D.put(u, [variant(g, base)])
                else:
                    one_query(s, g, u, D.text[u])
        ctx.run(body, lazy=r.choice(LAZY))
        ctx.docs += 1


# -- robustness ------------------------------------------------------------------------------------------
EXOTIC = ["\0", "\x01", "\x0b", "\x0c", "\x85", "\u2028", "\u2029", "\ufeff", "\u200d", "\u0301", "\ufffd", "\U0010ffff", "\u1e9e", "ǅ", "ﬁ", "Ⅷ", "௧",
          "०", "一", "㈠", "٠", "࿂", "\u00ad", "İ", "ß", "ŉ", "\U0001d7d8", "\U00010107", "𝟙", "①", "½", "º", "ª", "\u0345", "\U000e0001", "́a"]


def exotic(g):
    """Texts beyond the specification: exotic characters, sizes and shapes"""
    r = g.r
    x = r.random()
    if x < 0.35:
        t = g.doc() if r.random() < 0.7 else g.noise()
        for _ in range(r.choice([1, 2, 5, 20])):
            i = r.randrange(len(t) + 1)
            c = r.choice(EXOTIC) if r.random() < 0.7 else chr(r.choice([r.randrange(0x20, 0xd800), r.randrange(0xe000, 0x110000)]))
            t = t[:i] + c + t[i:]
        return t
    if x < 0.5:
        c = lambda: r.choice(EXOTIC + ODD_NUM + UNI_LETTERS + list("0123456789"))
        names = ["".join(c() for _ in range(r.randrange(1, 5))) for _ in range(6)]
        return "".join(r.choice(["@", "%", "!", ""]) + r.choice(["", "a", "v"]) + r.choice(names) + r.choice(["", "1", "9"]) +
                       r.choice([" = ", "\n", ":\n", " ", "(", ")", " {\n", "\n}\n"]) for _ in range(r.randrange(1, 40)))
    if x < 0.6:
        return r.choice(["(", "{", "[", "\"", "#", "@", "%", "!", ":", "=", ",", "}", "]", "define ", "declare void @f(", "\r", "\n", "a:\n", "$",
                         "phi [", "!1 = {", "0x", "switch "]) * r.choice([3, 50, 400])
    if x < 0.7:
        n = r.choice([5000, 30000])
        return r.choice(["@" + "a" * n + " = 1\n", "# " + "ä" * n, "@g = \"" + "x" * n, "@g = " + "9" * n, "@g = 0x" + "f" * n, " " * n, "!1 = {" + "[" * (n // 10),
                         "@a" + "1" * n + " = 2\n@a1 = @a2\n", "define void @f() {\n" + "  br a\n" * 150 + "}\n"])
    if x < 0.8:
        return "\n".join(g.doc() for _ in range(6))
    if x < 0.9:
        d = r.choice([200, 2000])
        return "!1 = {\"backtrace\": " + "[" * d + "]" * r.choice([d, d - 1]) + "}\ndefine void @f() {\n  ret void !1\n}\n"
    return "".join(chr(r.choice([r.randrange(0, 0x250), r.randrange(0, 0xd800), r.randrange(0xe000, 0x110000)])) for _ in range(r.randrange(0, 120)))


MALFORMED = [
    ("textDocument/definition", {}), ("textDocument/definition", None), ("textDocument/definition", []), ("textDocument/definition", {"textDocument": {}}),
    ("textDocument/rename", {"textDocument": {"uri": "file:///w/a.hir"}, "position": {"line": 0, "character": 0}}),
    ("textDocument/rename", {"textDocument": {"uri": "file:///w/a.hir"}, "position": {"line": -1, "character": 0}, "newName": "a"}),
    ("textDocument/rename", {"textDocument": {"uri": "not a uri"}, "position": {"line": 0, "character": 0}, "newName": "a"}),
    ("textDocument/rename", {"textDocument": {"uri": "file:///w/a.hir"}, "position": {"line": 0, "character": 0}, "newName": 5}),
    ("textDocument/references", {"textDocument": {"uri": "file:///w/a.hir"}, "position": {"line": 4294967296, "character": 0},
                                 "context": {"includeDeclaration": True}}),
    ("textDocument/definition", {"textDocument": {"uri": "file:///w/a.hir"}, "position": {"line": 1.5, "character": 0}}),
    ("textDocument/codeAction", {"textDocument": {"uri": "file:///w/a.hir"}}), ("codeAction/resolve", {}), ("codeAction/resolve", None),
    ("codeAction/resolve", {"data": 5}), ("workspace/executeCommand", {}), ("workspace/executeCommand", None), ("workspace/executeCommand", {"command": 1}),
    ("textDocument/semanticTokens/full", {}), ("textDocument/inlayHint", {"textDocument": {"uri": "file:///w/a.hir"}}), ("textDocument/codeLens", 5),
    ("textDocument/foldingRange", "x"), ("textDocument/documentSymbol", {"textDocument": None}), ("textDocument/prepareRename", {"position": {}}),
]
BADNOTES = [
    ("textDocument/didOpen", {}), ("textDocument/didOpen", {"textDocument": {"uri": "file:///w/a.hir"}}),
    ("textDocument/didOpen", {"textDocument": {"uri": "::", "languageId": "hir", "version": 1, "text": "@g = 1"}}),
    ("textDocument/didChange", {"textDocument": {"uri": "file:///w/a.hir", "version": 1}}), ("textDocument/didChange", None),
    ("textDocument/didChange", {"textDocument": {"uri": "file:///w/a.hir", "version": "x"}, "contentChanges": [{"text": "foo"}]}),
    ("$/cancelRequest", {}), ("$/cancelRequest", {"id": "nope"}), ("textDocument/didClose", {}), ("initialized", None),
    ("textDocument/didClose", {"textDocument": {"uri": "file:///w/neveropened.hir"}}),
]
BADARGS = [[], ["file:///w/a.hir", "@f", "x"], ["file:///w/a.hir", "@f", None], ["file:///w/a.hir", "@f", "@f"], ["file:///w/a.hir", "@f", 1, 2], ["file:///w/a.hir"], ["file:///w/a.hir", "@f", "x"], [1, 2], [None, None], ["file:///w/a.hir", 5], [["file:///w/a.hir"], "@f"],
           [{"uri": "file:///w/a.hir"}, "@f"], ["@f", "file:///w/a.hir"], ["", ""], ["file:///w/a.hir", "f"], ["file:///w/a.hir", "@f "], ["/w/a.hir", "@f"],
           ["file:///w/a.hir", ""], ["file:///w/A.hir", "@f"]]
BADDATA = [None, 5, "x", [], {}, {"shiftNumbering": {}}, {"shiftNumbering": None}, {"foo": {}},
           {"shiftNumbering": {"uri": "file:///nope.hir", "symbol_kind": "GlobalVar", "func_body_id": None, "renamed_nr": 1}},
           {"shiftNumbering": {"uri": "file:///w/a.hir", "symbol_kind": "Foo", "func_body_id": None, "renamed_nr": 1}},
           {"shiftNumbering": {"uri": "file:///w/a.hir", "symbol_kind": "LocalVar", "func_body_id": None, "renamed_nr": 1}},
           {"shiftNumbering": {"uri": "file:///w/a.hir", "symbol_kind": "Label", "func_body_id": 999, "renamed_nr": 1}},
           {"shiftNumbering": {"uri": "file:///w/a.hir", "symbol_kind": "GlobalVar", "func_body_id": -1, "renamed_nr": 1}},
           {"shiftNumbering": {"uri": "file:///w/a.hir", "symbol_kind": "GlobalVar", "func_body_id": None, "renamed_nr": "x"}},
           {"shiftNumbering": {"uri": 5, "symbol_kind": "GlobalVar", "func_body_id": None, "renamed_nr": 1}}]
U32MAX = 4294967295


def odd_data(r, v):
    """Something like the data of an action, but with other values"""
    if isinstance(v, dict):
        d = {k: odd_data(r, x) for k, x in v.items()}
        if d and r.random() < 0.1:
            del d[r.choice(sorted(d))]
        return d
    if isinstance(v, list):
        return [odd_data(r, x) for x in v]
    if r.random() < 0.45:
        return v
    if isinstance(v, str):
        return r.choice(["LocalVar", "Label", "GlobalVar", "Function", "DbgAnnotation", "", "localVar", "file:///w/a.hir", "file:///w/z.hir"]) if "/" not in v else r.choice(["file:///w/%s.hir" % c for c in "abcd"] + ["", "x"])
    return r.choice([None, 0, 1, 2, 3, 7, -1, 2 ** 63 - 1, 2 ** 63 - 2, -2 ** 63, 2 ** 63, 2 ** 64, 1.5, "1", True])


def stale(ctx, n, profile=None):
    """Actions of local and global symbols, resolved after functions came, went or moved"""
    g = ctx.gen(profile)
    r = g.r
    for _ in range(n):
        def body(s):
            D = Docs(s, g)
            us = r.sample(URIS, r.choice([1, 1, 2]))
            funs = lambda k: ["define void @f%d(int32 %%a%d, int8 %%v7) {\nb1:\n  int32 %%v%d = add int32 %%v7, %%a%d !%d\n  br b%d\nb%d:\n  ret @g1\n}" % (
                i, r.randrange(3), r.randrange(9), r.randrange(3), r.randrange(3), r.choice([1, 2, 8]), r.choice([2, 8, 3])) for i in range(k)]
            new = lambda k: "\n".join(r.sample(["@g1 = 1", "@g2 = @g1", "!1 = \"x\"", "!2 = {}", "declare void @f9()", "@broken", "define void @b() {"][:5 + 2 * (r.random() < 0.3)], r.randrange(6)) + funs(k)) + "\n"
            acts = []
            for _ in range(r.choice([2, 4, 6])):
                u = r.choice(us)
                D.put(u, [new(r.choice([0, 1, 1, 2, 3, 4]))])
                ctx.docs += 1
                for _ in range(r.choice([1, 2, 3])):
                    if acts and r.random() < 0.9:
                        s.resolve(r.choice(acts))
                if acts and r.random() < 0.4:
                    a = dict(s.raw_actions[r.choice(acts)])
                    a["data"] = odd_data(r, a.get("data"))
                    s.request("oddResolve", {}, a)
                for _ in range(r.choice([1, 3])):
                    line, ch = g.position(D.text[u], NUMRX)
                    x = s.wait(s.code_action(u, line, ch))[0]
                    acts += [a["handle"] for a in (x or {"v": []})["v"]]
            for h in r.sample(acts, min(len(acts), 6)):
                s.resolve(h)
        ctx.run(body, lazy=r.choice(LAZY))


def hostile(s, g, u, t):
    """One unusual request or notification"""
    r = g.r
    x = r.random()
    big = lambda: r.choice([0, 1, 5, 1000, 65535, 65536, 2147483647, U32MAX, U32MAX - 1])
    if x < 0.2:
        m, p = r.choice(MALFORMED)
        s.request("malformed", {}, p, lsp=m)
    elif x < 0.3:
        m, p = r.choice(BADNOTES)
        s.notify(m, p, e="ntf", m="other", p={})
    elif x < 0.42:
        bad_command(s, g, u)
    elif x < 0.55:
        a = {"title": "Shift global variable numbering", "data": r.choice(BADDATA)}
        if r.random() < 0.1:
            del a["data"]
        s.request("badResolve", {}, a)
    elif x < 0.75:
        m = r.choice(POS)
        i = pos_query(s, g, m, u, big(), big(), resolve=False)
    elif x < 0.8:
        # a client may ask for the actions of any range
        s.code_action(u, *r.choice([(0, 0, 3, 5), (5, 5, 0, 0), (0, 0, U32MAX, U32MAX), (0, 3, 0, 0)]))
    elif x < 0.85:
        s.hints(u, *r.choice([(0, 0, U32MAX, U32MAX), (0, 0, 1000000, 7)]))
    elif x < 0.9:
        unknown(s, g, u, t)
    elif x < 0.95:
        oddnote(s, g)
    else:
        s.cancel(r.choice([0, 1, 77777, U32MAX]))


def robust(ctx, n, per=4, npos=4, p_exotic=0.5):
    g = ctx.gen(dict(uni=0.6, mutate=0.5, big=0.4))
    r = g.r
    done = 0
    while done < n:
        def body(s):
            nonlocal done
            for j in range(per):
                done += 1
                ctx.docs += 1
                u = "file:///w/%s.hir" % "abcd"[j % 4]
                if r.random() < p_exotic:
                    t = exotic(g)
                    s.open(u, t, j, opaque=True)
                else:
                    t = r.choice([g.doc, g.soup, g.noise])()
                    s.open(u, t, j)
                for _ in range(r.choice([0, 1, 2, 4])):
                    hostile(s, g, u, t)
                query_doc(s, g, u, t if len(t) < 3000 else t[:3000], npos)
            # it still works
            t = g.clean(2)
            s.open("file:///w/z.hir", t, 1)
            query_doc(s, g, "file:///w/z.hir", t, 1, commands=1.0)
        ctx.run(body, lazy=r.choice(LAZY))


def monster(ctx, n):
    """Texts of 100,000 characters and more (not compared with the specification)"""
    g = ctx.gen()
    r = g.r
    for _ in range(n):
        def body(s):
            k = r.choice([3000, 8000, 15000])
            t = r.choice([
                lambda: "@g = @h\n" * (k // 2), lambda: "foo\n" * k, lambda: "define void @f() {\na:\n" + "  br a\n" * k + "}\n",
                lambda: "define void @f() {\na:\n  br a\n}\n" * (k // 3), lambda: "(" * 5 * k, lambda: "!1 = {\"backtrace\": " + "[" * 5 * k, lambda: "define void @f() {\n" * (k // 2),
                lambda: "define void @f() {\na:\n  phi " + "[a, 1], " * k + "[a, 2]\n}\n", lambda: "$ " * k, lambda: "# c\n" * k, lambda: "\"" * k, lambda: "@" * k,
                lambda: "define void @f(" + "int32 %a, " * k + "int32 %b) {\n}\n", lambda: "@g depends on " + "@h, " * k + "@i", lambda: "@g = " + "9" * 10 * k, lambda: "a:\n" * k,
                lambda: "define void @f() {\n" + "".join("b%d:\n  br b%d\n" % (i, i + 1) for i in range(k // 4)) + "}\n", lambda: "!1 = {\"backtrace\": [" + "[\"f\", \"a.cpp:1\"]," * k + "[]]}\ndefine void @f() {\n  ret !1\n}\n"])()
            u = "file:///w/monster.hir"
            s.open(u, t, 1, opaque=True)
            for m in FLAT:
                s.hints(u) if m == "hints" else s.doc(m, u)
            for line, ch in [(0, 1), (t.count("\n") // 2, 3)]:
                for m in POS:
                    pos_query(s, g, m, u, line, ch, resolve=False)
            show(s, g, u, "@f")
            t = g.clean(2)
            s.open("file:///w/z.hir", t, 1)
            query_doc(s, g, "file:///w/z.hir", t, 1, commands=1.0)
        ctx.docs += 1
        ctx.run(body, lazy=r.choice(LAZY))


# -- rename and renumbering ------------------------------------------------------------------------------
def apply_edits(text, edits):
    """What an editor does with the edits of an answer"""
    lines = re.split(r"(?<=\n)", text.replace("\r\n", "\n")) if "\r" in text else re.split(r"(?<=\n)", text)
    if "\r" in text:
        return None
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l))

    def o(l, c):
        if l >= len(lines):
            return len(text)
        s = lines[l].encode("utf-16-le")[:2 * c].decode("utf-16-le", "ignore")
        return off[l] + len(s)
    es = sorted(((o(e["r"][0], e["r"][1]), o(e["r"][2], e["r"][3]), e["n"]) for e in edits), reverse=True)
    for a, b, n in es:
        text = text[:a] + n + text[b:]
    return text


FRESH = ["zz1", "qq", "fresh_name", "a::b", "Zä", "x9", "bb_7"]
NUMRX = r"[@%!]?[A-Za-z_:]*\d+"


def refactor(ctx, n, profile=None, kinds=("clean", "messy"), shift=0.5, chain=3, rx=None, lazy=LAZY):
    """Chains of renames / renumberings whose edits the client applies; requests in between"""
    g = ctx.gen(profile)
    r = g.r
    for _ in range(n):
        def body(s):
            u = r.choice(URIS)
            D = Docs(s, g)
            t = getattr(g, r.choice(kinds))(r.choice([1, 2, 3, 4]))
            D.put(u, [t])
            acts = []
            for _ in range(chain):
                ctx.docs += 1
                line, ch = g.position(t, rx or (NUMRX if r.random() < 0.6 else r"[@%!]?[\w:]+"))
                s.at("prepareRename", u, line, ch)
                s.at("references", u, line, ch, incl=True)
                edits = None
                if r.random() < shift:
                    if r.random() < 0.5:
                        i = s.code_action(u, line, ch)
                        for a in s.wait(i)[0]["v"]:
                            if a["hasEdit"]:
                                edits = a["edits"]
                            else:
                                acts.append(a["handle"])
                                if r.random() < 0.8:
                                    edits = (s.wait(s.resolve(a["handle"]))[0] or {"v": {}})["v"]
                                    edits = edits["edits"] if isinstance(edits, dict) and "edits" in edits else None
                    else:
                        x = s.wait(s.at("rename", u, line, ch, name=r.choice(["+1", "-1", "+2", "+10", "-3", "+0", "+99", "-100", "+9223372036854775807", g.newname()])))[0]
                        edits = x["v"] if x and not x["err"] else None
                else:
                    x = s.wait(s.at("rename", u, line, ch, name=r.choice(FRESH) if r.random() < 0.7 else g.newname()))[0]
                    edits = x["v"] if x and not x["err"] else None
                if acts and r.random() < 0.4:     # again, or of an older text
                    s.resolve(r.choice(acts))
                if edits and r.random() < 0.8:
                    t2 = apply_edits(t, edits)
                    if t2 is not None and not re.search("[\x0b\x0c\x85\u2028\u2029]", t2):
                        t = t2
                        D.put(u, [t])
                        query_doc(s, g, u, t, 1, flat=("symbols", "tokens"), commands=0)
                elif r.random() < 0.3:
                    t = variant(g, t)
                    D.put(u, [t])
                if acts and r.random() < 0.4:
                    s.resolve(r.choice(acts))
        ctx.run(body, lazy=r.choice(lazy))


# -- external files -----------------------------------------------------------------------------------------
FILES = ["a.cpp", "dir/b.cpp", "dir/c.hpp", "hyper/cts/a.cpp", "hyper/ir/Builder.cpp", "hyper/codegen/x.cpp", "src/x.cpp", "dir/é.cpp", "dir/deep/er/z.cpp",
         "only1.cpp", "only2.cpp", "a b.cpp", "c#.cpp", "q?x=1.cpp", "100%25.cpp", "p+q(1).cpp", "link.cpp", "dir/" + "long" * 30 + "/" + "n" * 120 + ".cpp", "UP/Case.cpp"]


def make_roots(ctx, k):
    r = ctx.r
    base = os.path.join(ctx.scratch, "ws%d" % k)
    os.makedirs(base)
    with open(os.path.join(base, "outside.cpp"), "w"):
        pass
    roots = []
    dirs = {}
    for i in range(r.choice([0, 1, 1, 2, 2, 3, 5, 9])):
        x = r.random()
        if x < 0.1:
            roots.append({"uri": r.choice(["untitled:foo", "mailto:a@b", "data:text/plain,x"]), "base": False, "files": {}})
            continue
        if x < 0.18:
            roots.append({"uri": r.choice(["vscode-remote://ssh-remote+host/w", "https://example.com/x"]), "base": True, "files": {}})
            continue
        if x < 0.22 and dirs:   # the same folder again
            d = r.choice(sorted(dirs.values()))
        elif x < 0.3 and dirs:  # a folder in another one
            d = os.path.join(r.choice(sorted(dirs.values())), r.choice(["dir", "hyper", "src", "nested"]))
        else:
            d = os.path.join(base, r.choice(["r%d", "my root %d", "wö%d", "100%%%d", "a+b(%d)", "x#%d"]) % i)
        if r.random() < 0.95:
            os.makedirs(d, exist_ok=True)
            for f in FILES:
                if r.random() < 0.55 and not (f.startswith("only") and f[4] != str(i + 1)):
                    touch(d, f)
        uri = "file://" + quote(d)
        dirs[uri] = d
        roots.append({"uri": uri, "base": True, "files": {}})
    scan(roots, dirs)
    return roots, dirs


def quote(p):
    return urllib.parse.quote(p, safe="/!$&'()*+,;=:@~")


def touch(d, f):
    os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
    if f.startswith("link"):
        os.symlink(FILES[0], os.path.join(d, f)) if not os.path.lexists(os.path.join(d, f)) else None
    else:
        with open(os.path.join(d, f), "w") as fh:
            fh.write("// x\n")


def scan(roots, dirs):
    """What exists in the roots"""
    for r in roots:
        d = dirs.get(r["uri"])
        if d is None:
            continue
        r["files"] = {}
        for top, ds, fs in os.walk(d):
            for f in ds + fs:
                if os.path.exists(os.path.join(top, f)):
                    q = os.path.relpath(os.path.join(top, f), d)
                    r["files"][q] = quote(q)


def disturb(ctx, roots, dirs):
    """Files appear and vanish"""
    r = ctx.r
    for _ in range(r.choice([1, 3, 6])):
        d = r.choice(sorted(dirs.values()))
        f = r.choice(FILES)
        if r.random() < 0.5:
            touch(d, f)
        else:
            p = os.path.join(d, f if r.random() < 0.8 or "/" not in f else os.path.dirname(f))
            assert p.startswith(ctx.scratch + "/ws")
            if os.path.isdir(p) and not os.path.islink(p):
                shutil.rmtree(p)
            elif os.path.lexists(p):
                os.remove(p)
    scan(roots, dirs)


MODES = ["folders", "folders", "folders", "rooturi", "both", "none"]
EXTLINKS = FILES + ["./a.cpp", "dir/./b.cpp", "missing.cpp", "dir/missing.cpp", "../outside.cpp", "dir/../../outside.cpp", "dir/../a.cpp", "dir/deep/../b.cpp", "dir/deep/er/../../b.cpp", "src/../dir/c.hpp", "missing/../a.cpp", "dir/./../a.cpp", "a.cpp/../dir/b.cpp", "dir/..b.cpp", "/etc/passwd", "dir", "A.cpp", "up/case.cpp", "nested", "c#", "q", "100%.cpp", "a%20b.cpp", "b.cpp", "er/z.cpp", "missing/sub\\win.cpp", "sub\\missing/w.cpp"]


def external_doc(g, broken=0.2):
    """Declarations with external definitions, calls, and backtraces"""
    r = g.r
    g.reset()
    lines = []
    nd = r.choice([1, 2, 3, 4])
    funcs = ["@f%d" % i for i in range(nd)]
    ids = ["!%d" % i for i in range(1, nd + 3)]
    lines = []
    for f in funcs:
        x = r.random()
        if x < 0.85:
            lines.append("declare %s %s(%s)%s%s" % (r.choice(["void", "int32", "exported int8", "pure ptr"]), f, r.choice(["", "int32 %a", "int8 %a, ptr %b"]),
                                                    r.choice(["", " = 0x1", " = 0xAb"]), " " + r.choice(ids) if r.random() < 0.9 else ""))
        if r.random() < 0.3:
            lines += ["define void %s() {" % f, "  call void %s() %s" % (r.choice(funcs), r.choice(ids)), "}"]
    if r.random() < 0.15:
        r.shuffle(lines)
    link = lambda: r.choice(EXTLINKS) + ":" + r.choice(["1", "2", "7", "0", "31", "100000", "x", "", "-1", "007", "99999999999", "1:2", "4294967295", "4294967296", "2147483648", "3000000000"] if r.random() < 0.35 else ["1", "2", "12", "480"])

    def frame():
        x = r.random()
        if x < 0.8:
            return [r.choice(g.FRAMES), link()]
        g.uni = r.random() < 0.5
        return g.frame()

    ann = []
    for i in ids:
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            x = r.random()
            if x < 0.5:
                v = '"' + link() + '"'
            elif x < 0.85:
                v = json.dumps({"backtrace": [frame() for _ in range(r.choice([0, 1, 2, 3, 5, 5, 9, 17] if r.random() < 0.9 else [33, 65, 130]))]}, ensure_ascii=r.random() < 0.3)
            else:
                g.uni = False
                v = g.annot_value()
            ann.append(i + " = " + v)
    body = ["define void @main%s() {" % r.choice(["", "2"])] + [
        "  %scall void %s(%s)%s" % (r.choice(["", "int32 %%v%d = " % k]), r.choice(funcs), r.choice(["", "int32 1", "@g"]),
                                   " " + r.choice(ids) if r.random() < 0.8 else "") for k in range(r.choice([1, 2, 4]))] + ["}"]
    parts = [lines, ann, body]
    if r.random() < 0.5:
        r.shuffle(parts)
    if r.random() < 0.25:
        parts.insert(r.randrange(3), ["@g = " + r.choice(funcs)])
    ls = sum(parts, [])
    if r.random() < broken:
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            ls.insert(r.randrange(len(ls) + 1), g.mutate_line(r.choice(ls)))
    return g.assemble(ls)


def external(ctx, n, per=6, npos=6, profile=None, broken=0.2):
    g = ctx.gen(dict(dict(uni=0.2, json=0.7), **(profile or {})))
    r = g.r
    k = 0
    done = 0
    while done < n:
        k += 1
        roots, dirs = make_roots(ctx, k)

        def body(s):
            nonlocal done
            D = Docs(s, g)
            for j in range(per):
                done += 1
                ctx.docs += 1
                t = external_doc(g, broken) if r.random() < 0.8 else g.doc()
                u = r.choice(URIS)
                D.put(u, [t])
                query_doc(s, g, u, t, npos, flat=("hints",), pos=("definition", "declaration"), rx=r"@[\w:]+" if r.random() < 0.8 else None, commands=0)
                query_doc(s, g, u, t, 0, commands=0, flat=r.sample(FLAT, 1))
                if r.random() < 0.3:
                    D.close(u)
                elif dirs and r.random() < 0.5:
                    s.wait_all()
                    disturb(ctx, roots, dirs)
                    s.files_changed()
                    query_doc(s, g, u, t, npos // 2, flat=("hints",), pos=("definition",), rx=r"@[\w:]+", commands=0)
        ctx.run(body, lazy=r.choice(LAZY), roots=roots, root_mode=r.choice(MODES))
        shutil.rmtree(os.path.join(ctx.scratch, "ws%d" % k))
