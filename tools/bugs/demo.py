"""A small LSP client; case.py beside it says what to expect."""
import json, os, subprocess, sys, tempfile, threading, queue, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
BIN = os.path.join(os.getcwd(), "target/debug/hyper-ir-lsp")


class Client:
    def __init__(self, init=None, start=True):
        self.p = subprocess.Popen([BIN], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        self.q, self.n, self.inbox = queue.Queue(), 0, []
        threading.Thread(target=self._read, daemon=True).start()
        if start:
            self.caps = self.req("initialize", init or {"processId": None, "rootUri": None, "capabilities": {}})
            self.note("initialized", {})

    def _read(self):
        f = self.p.stdout
        while True:
            n = None
            while True:
                h = f.readline()
                if not h:
                    self.q.put(None)
                    return
                if h == b"\r\n":
                    break
                if h.lower().startswith(b"content-length:"):
                    n = int(h.split(b":")[1])
            self.q.put(json.loads(f.read(n)))

    def send(self, m):
        b = json.dumps(dict(m, jsonrpc="2.0")).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
        self.p.stdin.flush()

    def note(self, method, params):
        self.send(dict(method=method, params=params))

    def start(self, method, params):
        self.n += 1
        self.send(dict(id=self.n, method=method, params=params))
        return self.n

    def get(self, pred, timeout=20):
        for k, m in enumerate(self.inbox):
            if pred(m):
                return self.inbox.pop(k)
        end = time.time() + timeout
        while True:
            try:
                m = self.q.get(timeout=max(0.01, end - time.time()))
            except queue.Empty:
                raise AssertionError("no answer")
            if m is None:
                raise AssertionError("the server died")
            if pred(m):
                return m
            self.inbox.append(m)

    def answer(self, i, timeout=20):
        return self.get(lambda m: m.get("id") == i and "method" not in m, timeout)

    def req(self, method, params):
        m = self.answer(self.start(method, params))
        if "error" in m:
            return {"error": m["error"]}
        return m.get("result")

    def open(self, uri, text, v=1):
        self.note("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "hir", "version": v, "text": text}})

    def change(self, uri, text, v):
        self.note("textDocument/didChange", {"textDocument": {"uri": uri, "version": v}, "contentChanges": [{"text": text}]})

    def close(self, uri):
        self.note("textDocument/didClose", {"textDocument": {"uri": uri}})

    def diags(self, timeout=20):
        return self.get(lambda m: m.get("method") == "textDocument/publishDiagnostics", timeout)["params"]

    def at(self, method, uri, line, ch, **k):
        return self.req("textDocument/" + method, dict({"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}}, **k))

    def refs(self, uri, line, ch):
        return sorted(rng(x["range"]) for x in self.at("references", uri, line, ch, context={"includeDeclaration": False}) or [])

    def defs(self, uri, line, ch, m="definition"):
        return sorted((x["targetUri"], rng(x["targetRange"])) for x in self.at(m, uri, line, ch) or [])

    def rename(self, uri, line, ch, name):
        r = self.at("rename", uri, line, ch, newName=name)
        if "error" in r:
            return "error"
        return sorted((rng(e["range"]), e["newText"]) for e in r["changes"][uri])

    def doc(self, m, uri, **k):
        return self.req("textDocument/" + m, dict({"textDocument": {"uri": uri}}, **k))

    def hints(self, uri):
        return self.doc("inlayHint", uri, range={"start": {"line": 0, "character": 0}, "end": {"line": 100000, "character": 0}})

    def tokens(self, uri):
        d, out, l, c = self.doc("semanticTokens/full", uri)["data"], [], 0, 0
        for i in range(0, len(d), 5):
            l, c = (l + d[i], d[i + 1]) if d[i] else (l, c + d[i + 1])
            out.append((l, c, d[i + 2]))
        return out

    def graph(self, uri, f):
        i = self.start("workspace/executeCommand", {"command": "visualize-cfg", "arguments": [uri, f]})
        m = self.get(lambda m: m.get("method") == "hyperir/showDot")
        self.send(dict(id=m["id"], result={}))
        self.answer(i)
        return sorted(set(l.strip() for l in m["params"]["dotGraph"].split("\n") if "->" in l))

    def stop(self):
        self.p.kill()
        self.p.wait()


def rng(r):
    return (r["start"]["line"], r["start"]["character"], r["end"]["line"], r["end"]["character"])


def eq(a, b):
    assert a == b, "%r != %r" % (a, b)


if __name__ == "__main__":
    import demo
    import case
    try:
        case.case(demo)
    except AssertionError as ex:
        print("FAILED:", ex)
        sys.exit(1)
    print("ok")
