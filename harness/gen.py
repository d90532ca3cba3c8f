"""Random Hyper IR documents and requests (the environment of the specification).

The generator knows nothing about expected answers; it only tries to reach every part of the
grammar, every kind of symbol, and the unusual shapes in which texts come.
"""
import json
import random
import re

MODS = ["exported", "async", "memberfunc", "noreturn", "nosideeffects", "pure"]
TYPES = ["void", "int1", "int8", "int16", "int32", "int64", "float32", "float64", "data128", "ptr"]
KEYWORDS = MODS + TYPES + ["declare", "define"]
OPS = ["add", "sub", "load", "store", "call", "ret", "getelementptr", "cmpeq", "zext", "not", "select", "builtin_x",
       "unreachable", "abr", "br2", "switches", "phi2", "cont", "default", "overflow", "label"]
BROPS = ["saddbr", "ssubbr", "smulbr", "ubr", "br", "sdivbr", "uaddbr", "usubbr", "umulbr", "xbr", "überbr", "br_br", "a:br"]
UNI_LETTERS = ["ä", "é", "中", "λ", "Ж", "𝒜", "𐐀", "Ⅷ", "ª"]
UNI_OTHER = ["😀", "€", "→", "\u00a0", "\u3000", "\ufeff", "\u200b", "\u0301", "\u0000", "\u007f", "\u0001", "\ufffd"]
ODD_NUM = ["²", "٣", "½", "Ⅷ", "\U0001d7d9"]
BIG = ["9223372036854775807", "9223372036854775806", "9223372036854775808", "18446744073709551616",
       "99999999999999999999999", "2147483648", "4294967296", "007", "00", "0", "1", "9", "10", "99", "100"]
PUNCT = list("=,(){}[]:;*.<>")


TOKEN = re.compile(r'"[^"\n]*"|#[^\n]*|[@%!][\w:]*|\w+|[^\s\w]')
NEAR = {
    "type": ["int", "int128", "int2", "int64t", "float", "double", "bool", "Void", "INT32", "int32_", "ptr8", "ptr_t", "data64", "data", "string", "bigint", "int 32", "int16", "void",
             "int032", "int32:x", "int32*", "int32 *", "ptr<int8>", "uint32", "float16", "float128", "data256", "int1 int1", ""],
    "mod": ["export", "exported_", "inline", "noinline", "static", "const", "Pure", "no_return", "noreturn:", "sideeffects", "extern", "private", "pure pure", "exported async",
            "memberFunc", "member", "asynchronous", "internal", "public", ""],
    "num": ["0X1F", "0xG", "0x1G", "0x", "1e5", "1.5", "-5", "+5", "1_000", "0b1", "0o7", "00x1", "1x", "0x1x", "1a", "9:", "0x0f", "007", "0 x1", "0xx1", "0X", "x1", "1.", ".5", "5%", "0x00", "0x0",
            "0xFFFFFFFFFFFFFFFFFF", "1'000", "#5", "$5", "0x_1", "0xA.B", "1e-5", "inf", "5u", "5L", "00", "01"],
    "define": ["defined", "Define", "DEFINE", "def", "define:", "define_", "undefine", "declare", "define define", "defines", "function", "func", ""],
    "declare": ["declares", "Declare", "DECLARE", "decl", "declare:", "define", "declare declare", "extern", "declared", ""],
    "br": ["Br", "BR", "brr", "br1", "b", "abr", "br:", "br_", "jmp", "goto", "br br", "nbr", "sbr", "br2", "branch", "brr br"],
    "switch": ["Switch", "switch1", "switch:", "switch_", "select", "case", "switches", "sswitch", "switchbr", "switch switch"],
    "phi": ["Phi", "phi1", "phi:", "phis", "phi_", "phi phi", "sphi", "phibr", "psi"],
    "depends": ["depend", "Depends", "depends:", "dependson", "depends depends", "requires", "="],
    "on": ["of", "On", "on:", "onto", "on on", "upon", "="],
    "default": ["Default", "defaults", "default:", "default =", "def", "default_", "else", "default default"],
    "cont": ["Cont", "continue", "cont:", "cont =", "conts", "cont_", "overflow", "default"],
    "overflow": ["Overflow", "overflows", "overflow:", "overflow =", "over", "overflow_", "cont"],
    "label": ["labels", "Label", "label:", "label =", "lbl", "label_", "default", "label label"],
    "(": ["[", "{", "<", "((", "(,", "( ", ""], ")": ["]", "}", ">", "))", ",)", ""], "{": ["(", "{ {", "{}", "[", ""], "}": [")", "} }", "]", "};", "},", "} ;", ""],
    "=": ["==", ":=", ":", "= =", "=>", "+=", ""], ",": [";", ",,", "", ", ,", ".", ":"], ":": ["::", ";", "", ": :", "=", ".", " :"], "[": ["(", "[[", "{", ""], "]": [")", "]]", "}", ""],
}


class Gen:
    def __init__(self, seed, profile=None):
        self.r = random.Random(seed)
        self.p = dict(uni=0.25, crlf=0.15, tabs=0.2, comments=0.3, noeol=0.2, dup=0.25, undef=0.2, big=0.15,
                      json=0.5, mutate=0.4, blank=0.2)
        if profile:
            self.p.update(profile)

    # -- names ---------------------------------------------------------------
    def ident(self, kind=""):
        r = self.r
        base = r.choice(["v", "x", "bb_", "f", "body", "then", "cont", "a_b", "ns::f", "loop", "c", "g", "br", "int", "phi",
                         "overflow", "default", "label", "depends", "on", "switch", "intx", "definex", "ab::c:d", "node", "graph", "edge", "digraph", "strict", "subgraph", "V", "F", "Body"])
        if kind == "label" and r.random() < 0.7:
            base = r.choice(["bb_", "body", "then", "else_", "loop", "cont", "overflow_", "unreachable_", "node", "edge", "graph", "Body", "LOOP"])
        if self.uni and r.random() < 0.4:
            base += r.choice(UNI_LETTERS + ODD_NUM)
            if r.random() < 0.3:
                base = r.choice(UNI_LETTERS) + base
        x = r.random()
        if x < 0.5:
            base += str(r.choice([0, 1, 2, 3, 4, 5, 9, 10, 11]))
        elif x < 0.5 + self.p["big"] * 0.5:
            base += r.choice(BIG)
        elif x < 0.62 and self.uni:
            base += r.choice(ODD_NUM) + r.choice(["", "1", "12"])
        return base

    def gname(self):
        r = self.r
        if r.random() < 0.04:
            return "@" + r.choice(["", "1", "0", "7", "123"])
        return "@" + self.ident()

    def lname(self):
        r = self.r
        x = r.random()
        if x < 0.45:
            return "%" + r.choice(["v", "v", "x", "", "arg"]) + str(r.choice([0, 1, 2, 3, 4, 5, 8, 9, 10]))
        return "%" + self.ident()

    def dname(self):
        r = self.r
        x = r.random()
        if x < 0.8:
            return "!" + str(r.choice([0, 1, 2, 3, 4, 5, 10]))
        return "!" + self.ident()

    # -- pieces ------------------------------------------------------------------
    def type_(self):
        return self.r.choice(TYPES)

    def number(self):
        return self.r.choice(["0", "1", "42", "0x0", "0x1F", "0xdeadBEEF", "00", "0x", "123456789012345678901234567890", "5"])

    def string(self):
        r = self.r
        if r.random() < 0.06:
            return '"' + r.choice(["\\", "a\\", "two\nlines", "\n", "x\n@g1 = 5\ny", "# c\n", "'", "\t", "a\\\\"]) + '"'
        c = ["", "hello", "a b", "x # y", "hyper/a.cpp:12", "@g1", "%v1 !2", "\\n", "{}", "one two, three:"]
        if self.uni:
            c += ["ä", "😀 x", "中文", "𝒜:3"]
        return '"' + r.choice(c) + '"'

    def operand(self):
        r = self.r
        x = r.random()
        if x < 0.5 and self.locals:
            return r.choice(self.locals)
        if x < 0.55:
            return self.lname()
        if x < 0.7:
            return self.number()
        if x < 0.82 and self.globals:
            return r.choice(self.globals)
        if x < 0.86:
            return self.string()
        if x < 0.9:
            return self.gname()
        return r.choice(["null", "true", "false", "x", "<", ">", "*", ".", ";", "x.y"])

    def lbl(self):
        r = self.r
        if self.labels and r.random() > self.p["undef"] * 0.4:
            return r.choice(self.labels)
        return self.ident("label")

    def typed(self):
        return self.type_() + " " + self.operand()

    def operands(self, n):
        """Anything instructions may be applied to, including what looks like a part of another instruction"""
        r = self.r
        c = r.choice([", ", ",", " "])
        return c.join(r.choice([self.typed, self.typed, self.operand, self.lbl, self.dname, lambda: r.choice([
            "default", "cont", "label", "overflow", "label=" + self.lbl(), "cont=" + self.lbl(), "default " + self.operand(), "overflow=" + self.lbl(),
            "default=" + self.lbl(), "[" + self.lbl() + "]", "(", ")", "{", "}", ":", "=", "br", "phi", "switch", "declare", "define", "exported", "a:", "depends on"])])()
            for _ in range(n))

    def inst(self):
        r = self.r
        x = r.random()
        tgt = ""
        if r.random() < 0.45:
            n = r.choice(self.locals) if self.locals and r.random() < self.p["dup"] * 0.4 else self.lname()
            self.locals.append(n)
            tgt = self.type_() + " " + n + " = "
        cm = lambda: r.choice([", ", ",", " , "])
        if x < 0.12:
            body = "br " + self.lbl()
        elif x < 0.24:
            body = "br int1 " + self.operand() + cm() + self.lbl() + cm() + self.lbl()
        elif x < 0.34:
            body = r.choice(BROPS) + " " + (", ".join(self.typed() for _ in range(r.choice([0, 1, 2, 2, 3]))) if r.random() < 0.7 else self.operands(r.choice([0, 1, 2, 3, 5])))
            body = body.rstrip() + cm() + "cont=" + self.lbl() + cm() + "overflow=" + self.lbl()
            if r.random() < 0.06:
                body = body.replace("br", r.choice(["add", "x", "xbry"]), 1)
        elif x < 0.44:
            head = self.typed() if r.random() < 0.7 else self.operands(r.choice([0, 1, 2, 3, 4]))
            body = ("switch " + head).rstrip(" ") + cm() + "default=" + self.lbl() + ","
            k = r.choice([0, 1, 1, 2, 3, 4])
            body += ",".join(" " + self.type_() + " " + r.choice([self.number(), self.number(), self.operand()]) + " label=" + self.lbl() for _ in range(k))
        elif x < 0.52:
            val = lambda: self.operand() if r.random() < 0.7 else self.operands(r.choice([0, 1, 2, 3])).replace("]", ")")
            body = "phi " + cm().join("[" + self.lbl() + cm() + val() + "]" for _ in range(r.choice([0, 1, 2, 2, 3])))
        elif x < 0.58:
            # branches from which no targets can be extracted
            body = r.choice(["switch int32 %v1", "br int32 %v1, a, b", "saddbr int32 1, int32 2", "br", "phi int32", "br a, b",
                             "switch int32 1, default=a", "br int1 1, a", "phi [a]", "phi [a, %v1", "xbr", "switch",
                             "saddbr 1, cont=a", "saddbr 1, overflow=a, cont=b", "phi [1, 2]", "br int1 1 a, b",
                             "switch , default=a,", "saddbr , cont=a, overflow=b", "saddbr cont=a, overflow=b"])
        else:
            body = r.choice(OPS) + " " + (", ".join(self.typed() for _ in range(r.choice([0, 1, 2, 3]))) if r.random() < 0.8 else self.operands(r.choice([0, 1, 2, 3, 5])))
        if r.random() < 0.3:
            body += r.choice([" ", "    "]) + (r.choice(self.dbgs) if self.dbgs and r.random() < 0.9 else self.dname())
            if r.random() < 0.03:
                body += " !7"
        return tgt + body.rstrip(" ")

    def signature(self, name):
        r = self.r
        mods = "".join(r.choice(MODS) + " " for _ in range(r.choice([0, 0, 1, 2, 3])))
        args = []
        for _ in range(r.choice([0, 0, 1, 2, 3])):
            n = self.lname()
            self.locals.append(n)
            args.append(self.type_() + " " + n)
        return mods + self.type_() + " " + name + "(" + r.choice([", ", ",", " , "]).join(args) + ")"

    def funcname(self):
        r = self.r
        if self.funcs and r.random() < self.p["dup"]:
            return r.choice(self.funcs)
        if self.globals and r.random() < 0.08:
            return r.choice(self.globals)
        n = self.gname()
        self.funcs.append(n)
        self.globals.append(n)
        return n

    def define(self):
        r = self.r
        self.locals = []
        out = ["define " + self.signature(self.funcname()) + r.choice([" {", "{", "  {"])]
        nb = r.choice([0, 1, 1, 2, 3, 4])
        self.labels = []
        for _ in range(nb):
            if self.labels and r.random() < self.p["dup"] * 0.5:
                self.labels.append(r.choice(self.labels))
            else:
                self.labels.append(self.ident("label"))
        if nb == 0 or r.random() < 0.25:
            for _ in range(r.choice([0, 1, 2])):
                out.append(self.ind() + self.inst())
        for b in list(self.labels):
            out.append(r.choice(["", "", "", " "]) + b + r.choice([":", ":", " :"]))
            for _ in range(r.choice([0, 1, 1, 2, 3, 4])):
                out.append(self.ind() + self.inst())
        out.append("}")
        return out

    def ind(self):
        return self.r.choice(["  ", "    ", "", "\t"]) if self.tabs else "  "

    def declare(self):
        r = self.r
        self.locals = []
        s = "declare " + self.signature(self.funcname())
        if r.random() < 0.4:
            s += " = " + r.choice(["0x0", "0x123", "0xFFff"])
        if r.random() < 0.6:
            s += " " + (r.choice(self.dbgs) if self.dbgs and r.random() < 0.6 else self.dname())
        return [s]

    def global_(self):
        r = self.r
        n = r.choice(self.globals) if self.globals and r.random() < self.p["dup"] * 0.7 else self.gname()
        self.globals.append(n)
        return [n + r.choice([" = ", "=", "  =  "]) + " ".join(
            r.choice([self.type_(), self.number(), self.string(), "global", "[", "]", ",", "x", self.operand()])
            for _ in range(r.choice([0, 1, 2, 3])))]

    def deps(self):
        r = self.r
        g = lambda: r.choice(self.globals) if self.globals and r.random() < 0.8 else self.gname()
        return [g() + " depends on " + ", ".join(g() for _ in range(r.choice([0, 1, 2, 3])))]

    FRAMES = ["hyper::Translator::consume(int)", "Translator::produceMaterializedResult", "hyper::Translator::drivePipeline",
              "Translator::deriveValue<x>", "Foo::Translator::other", "hyper::ir::Builder::add", "", "main", "operator new[]",
              "a very long function name with more than forty-eight characters in it::" + "x" * 60,
              "a*b", "a+b-c=d/e.f:g<h>i_j*k,l", "~Foo", "p->q()", "$_0::operator()", "{lambda()#1}", "a;b|c\\d", "new\nline\ttab", "  ", "100%", "!1 @f",
              "Translator::", "ATranslator::consumeB", "translator::consume", "Translator:consume", "Translator::produce", "x::Translator::drivePipeline::consume",
              "x" * 46, "x" * 47, "x" * 48, "x" * 49, "f`oo`", "f<T>[abi:cxx11](T&&)"]
    LINKS = ["hyper/cts/a.cpp:12", "hyper/ir/Builder.cpp:7", "hyper/codegen/x.cpp:99", "a.cpp:1", "dir/b.cpp:0", "nolink", "a:b:3",
             "x.cpp:", "x.cpp:99999999999", "a.cpp:4294967295", "a.cpp:4294967296", "a.cpp:2147483648", "./dir/b.cpp:5", "dir/./b.cpp:31", "missing/q.cpp:8", "sub\\win.cpp:4", "missing/sub\\win.cpp:4", "sub\\missing/w.cpp:9", "C\\x/y\\z/w.cpp", "", "dir/b.cpp:x",
             "hyper/ir2/z.cpp:3", "src/hyper/ir/q.cpp:3", "dir/é.cpp:2"]

    def frame(self):
        r = self.r
        x = r.random()
        names = self.FRAMES + (["größe::f", "𝒜::b" + "y" * 44, "é" * 50, "😀" * 47, "😀" * 48] if self.uni else [])
        if r.random() < 0.2:   # lengths around the limit, in characters and in bytes
            c = r.choice(UNI_LETTERS[:7] + ["😀", "x"] if self.uni else ["x", "::"])
            n = "x" * r.choice([0, 20, 44, 45, 46, 47]) + c * r.choice([1, 1, 2, 3]) + "y" * r.choice([0, 0, 1, 2, 3])
            return [r.choice(["", "", "Translator::"]) + n, r.choice(self.LINKS)]
        if x < 0.85:
            return [r.choice(names), r.choice(self.LINKS)]
        return r.choice([[r.choice(names)], [], [1, 2], None, "x", [None, r.choice(self.LINKS)], {"a": 1},
                         [r.choice(names), 5], [r.choice(names), r.choice(self.LINKS), "extra"]])

    def annot_value(self):
        r = self.r
        x = r.random()
        if x < self.p["json"]:
            j = {"backtrace": [self.frame() for _ in range(r.choice([0, 1, 1, 2, 3, 5, 5, 9, 17] if r.random() < 0.95 else [33, 70]))]}
            if r.random() < 0.2:
                j["other"] = r.choice([1, "x", None, [1, {"a": 2}]])
            s = json.dumps(j, ensure_ascii=r.random() < 0.3, separators=r.choice([(",", ":"), (", ", ": ")]))
            # strings of Hyper IR have no escapes, those of JSON do
            return s
        if x < self.p["json"] + 0.3:
            return '"' + r.choice(self.LINKS) + '"'
        return r.choice(["", "x", "{}", '{"backtrace": 5}', '{"backtrace": []}', '{"backtrace": [', "[1, 2]", "5", "!1", "null",
                         '"a.cpp:1" "b.cpp:2"', '{"backtrace": [[]]} x', '"a.cpp":3', "true", '{"a": {"backtrace": []}}', self.string(),
                         '{"backtrace": [], "backtrace": [["f", "a.cpp:1"]]}', '"dir/b.cpp:3" # c', '{"backtrace": []} # "c'])

    def dbg(self):
        r = self.r
        n = self.dname()
        self.dbgs.append(n)
        return [n + r.choice([" = ", "=", " =  "]) + self.annot_value()]

    GARBAGE = ["}", "{", "define", "declare void", "declare void @f(", "define void @f() {", "foo bar", "@x", "@x y", "!1", "!1 2",
               "define void @f() { }", "declare void @f() = 5", "declare void @f(int32)", "declare void @f(int32 %a,)", "define int32 f() {",
               "  br a", "lbl:", "%v1 = add", "\"", "\"abc", "$", "?", "a ? b", ";", "void", "exported", "depends on", "@a depends",
               "@a depends on x", "@a depends on @b,", "@a depends on @b @c = 5", "declare void @f() !1 !2", "define void @f()", "\\", "~~~",
               "'", "0x", "} }", "},", "define void @f() {\n}", "define void @f() {\n} x", "a:", "[", "&", "|", "^", "/", ".", "declare @f()",
               "declare exported @f()", "define void @f(int32 %x {", "@ = 5", "! = 3", "= 3", "declare void @()"]

    def mutate_line(self, s):
        r = self.r
        if not s:
            return r.choice(self.GARBAGE)
        x = r.random()
        i = r.randrange(len(s))
        if x < 0.25:
            return s[:i] + s[i + 1:]
        if x < 0.4:
            return s[:i] + r.choice(list("$?;&~'\"@%!#{}():=,[]x0 ") + (UNI_OTHER + UNI_LETTERS if self.uni else [])) + s[i:]
        if x < 0.5:
            return s[:i]
        if x < 0.6:
            return s[i:]
        if x < 0.8:
            w = s.split(" ")
            k = r.randrange(len(w))
            y = r.random()
            if y < 0.4:
                del w[k]
            elif y < 0.7:
                w.insert(k, r.choice(KEYWORDS + PUNCT + ["x", "%v1", "@g", "!1", "5", "0x1", '"s"', "cont", "="]))
            else:
                j = r.randrange(len(w))
                w[k], w[j] = w[j], w[k]
            return " ".join(w)
        if x < 0.9:
            return s + " " + r.choice(["x", "{", "}", ":", ",", "!1", "@a", "$", "5"])
        return r.choice(self.GARBAGE)

    def comment(self):
        c = ["# comment", "#", "#@g1 %v1 !1", "# \"quoted", "## define x", "#x:"]
        if self.uni:
            c += ["# ä 😀 中", "#𝒜"]
        return self.r.choice(c)

    # -- documents -------------------------------------------------------------------
    def reset(self):
        r = self.r
        self.locals, self.labels, self.globals, self.funcs, self.dbgs = [], [], [], [], []
        self.uni = r.random() < self.p["uni"]
        self.tabs = r.random() < self.p["tabs"]

    def lines(self, n=None):
        r = self.r
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8, 10]) if n is None else n
        out = []
        for _ in range(n):
            out += r.choices([self.define, self.declare, self.global_, self.deps, self.dbg], [5, 2, 2, 1, 3])[0]()
        return out

    def assemble(self, lines):
        r = self.r
        out = []
        cm = r.random() < self.p["comments"]
        for l in lines:
            if cm and r.random() < 0.15:
                out.append(r.choice(["", "  "]) + self.comment())
            if cm and r.random() < 0.1:
                l += " " + self.comment()
            if r.random() < 0.08 * (self.p["blank"] / 0.2):
                out.append(r.choice(["", " ", "\t", "   "]))
            if self.tabs and r.random() < 0.1:
                l = l.replace(" ", "\t")
            if r.random() < 0.04:
                l += r.choice([" ", "  ", "\t"])
            out.append(l)
        nl = "\r\n" if r.random() < self.p["crlf"] else "\n"
        s = nl.join(out)
        if out and r.random() > self.p["noeol"]:
            s += nl
        if nl == "\r\n" and r.random() < 0.2:
            s = s.replace("\r\n", "\n", 1)
        if r.random() < 0.02:
            i = r.randrange(len(s) + 1)
            s = s[:i] + "\r" + s[i:]
        if r.random() < 0.015 or self.uni and r.random() < 0.04:
            s = "\ufeff" + s
        return s

    def clean(self, n=None):
        self.reset()
        return self.assemble(self.lines(n))

    def messy(self, n=None, k=None):
        self.reset()
        ls = self.lines(n)
        r = self.r
        for _ in range(r.choice([1, 1, 2, 3, 5]) if k is None else k):
            if ls and r.random() < 0.75:
                i = r.randrange(len(ls))
                ls[i] = self.mutate_line(ls[i])
            else:
                ls.insert(r.randrange(len(ls) + 1), r.choice(self.GARBAGE))
        if ls and r.random() < 0.15:
            i = r.randrange(len(ls))
            del ls[i:i + r.choice([1, 1, 2, 3])]
        return self.assemble(ls)

    def scoped(self, n=None):
        """Several functions which use the same names for their arguments, variables and blocks"""
        self.reset()
        r = self.r
        u = r.choice(UNI_LETTERS) if self.uni else ""
        V = ["%v1" + u, "%v2", "%v3" + u, "%a", "%v10"][:r.choice([2, 3, 5])]
        L = ["b1" + u, "b2", "b3", "loop", "v1"][:r.choice([1, 2, 3, 5])]
        G = ["@g1", "@f1", "@f2", "@v1"]
        out = []
        for k in range(r.choice([1, 2, 2, 3, 4]) if n is None else n):
            x = r.random()
            if x < 0.15:
                out.append("declare void %s(%s)" % (r.choice(G), ", ".join("int32 " + v for v in r.sample(V, r.choice([0, 1, 2])))))
            elif x < 0.25:
                out.append("@g%d = int32 %s, %s" % (r.randrange(4), r.choice(V), r.choice(G)))
            else:
                out.append("define void @f%d(%s) {" % (r.randrange(1, 4), ", ".join("int32 " + r.choice(V) for _ in range(r.choice([0, 1, 1, 2])))))
                for b in [r.choice(L) for _ in range(r.choice([0, 1, 2, 3]))] if r.random() < 0.7 else r.sample(L, r.randrange(len(L) + 1)):
                    out.append(b + ":")
                    for _ in range(r.choice([0, 1, 2, 3])):
                        y = r.random()
                        if y < 0.4:
                            s = "  int32 %s = add int32 %s, int32 %s" % (r.choice(V), r.choice(V), r.choice(V + ["1", "@g1"]))
                        elif y < 0.5:
                            s = "  store %s, %s" % (r.choice(V), r.choice(G))
                        elif y < 0.6:
                            s = "  int8 %s = phi [%s, %s], [%s, 2]" % (r.choice(V), r.choice(L), r.choice(V), r.choice(L))
                        elif y < 0.7:
                            s = "  br " + r.choice(L)
                        elif y < 0.8:
                            s = "  br int1 %s, %s, %s" % (r.choice(V), r.choice(L), r.choice(L))
                        elif y < 0.9:
                            s = "  smulbr int32 %s, int32 2, cont=%s, overflow=%s" % (r.choice(V), r.choice(L), r.choice(L))
                        else:
                            s = "  switch int32 %s, default=%s, int32 1 label=%s" % (r.choice(V), r.choice(L), r.choice(L))
                        if r.random() < 0.15:
                            s += " !%d" % r.randrange(1, 4)
                        out.append(s)
                out.append("}")
        if r.random() < 0.2:
            out.insert(r.randrange(len(out) + 1), r.choice(["!1 = 5", "!2 = \"x\"", "@g1 = 1", "foo", "@f1 depends on @g1"]))
        return self.assemble(out)

    def flow(self, n=None):
        """Functions whose blocks branch to each other"""
        self.reset()
        r = self.r
        out = []
        for k in range(r.choice([1, 1, 2, 3]) if n is None else n):
            out.append("define void @f%d() {" % (k if r.random() < 0.8 else 0))
            L = ["b%d" % i for i in range(r.choice([1, 2, 3, 4, 6]))]
            if self.uni:
                L = [b + r.choice(["", "ä", "𝒜"]) for b in L]
            if r.random() < 0.2:
                L.append(r.choice(L))
            t = lambda: r.choice(L) if r.random() < 0.93 else r.choice(["nowhere", "b9", "B0"])
            blocks = list(L)
            if r.random() < 0.2:
                out.append("  br " + t())
            for b in blocks:
                out.append(b + r.choice([":", " :", ":"]))
                for _ in range(r.choice([0, 1, 1, 2, 3])):
                    y = r.random()
                    c = r.choice([",", ", ", " , "])
                    if y < 0.2:
                        s = "br " + t()
                    elif y < 0.4:
                        s = "br int1 " + r.choice(["%v1", "1", "@g", "0x1"]) + c + t() + c + t()
                    elif y < 0.55:
                        s = r.choice(["saddbr", "usubbr", "mulbr", "xbr"]) + " " + r.choice(["int32 %v1, int32 2", "1", "int64 %a", "int8 1, int8 2, int8 3"]) + \
                            c + "cont=" + t() + c + "overflow=" + t()
                    elif y < 0.75:
                        s = "switch " + r.choice(["int32 %v1", "int32 %v1", "int32 %v1, int32 2", "%v1", "a, b, c", "x=y", "default", "int32 1, label=" + t()]) + c + "default=" + t() + "," + ",".join(" int32 %d label=%s" % (i, t()) for i in range(r.choice([0, 1, 2, 5])))
                    elif y < 0.85:
                        s = "int32 %v1 = phi " + c.join("[%s%s%s]" % (t(), c, r.choice(["1", "%v1", "null", "int32 %v1", "1, 2", "", "[", "x = y"])) for _ in range(r.choice([1, 2, 3])))
                    elif y < 0.93:
                        s = "ret void"
                    else:
                        s = r.choice(["br", "switch int32 %v1", "br int32 1, a, b", "phi", "addbr 1, cont=b0", "phi [b0]", "switch int32 1, default=b0", "br b0, b1"])
                    out.append("  " + s + r.choice(["", "", "", " !1"]))
            out.append("}")
        if r.random() < 0.1:
            out[r.randrange(len(out))] = r.choice(["foo", "}", "b0:", "$"])
        return self.assemble(out)

    def big(self, n=None):
        """Documents with much of something: symbols, blocks, functions, instructions, lines, long names, errors"""
        self.reset()
        r = self.r
        out = []
        fam = r.choice(["syms", "syms", "blocks", "blocks", "funcs", "insts", "long", "long", "dbg", "errs", "lines", "dups", "args"])
        N = r.choice([17, 20, 33, 40, 65, 70])
        if fam == "syms":
            for i in range(N):
                x = r.random()
                out.append("@s%d = int32 @s%d" % (i, r.randrange(N + 1)) if x < 0.6 else "declare void @s%d()" % i if x < 0.8 else
                           "!%d = %d" % (i, i) if x < 0.9 else "define void @s%d() {\n  call @s%d !%d\n}" % (i, r.randrange(N), r.randrange(N)))
            if r.random() < 0.5:
                r.shuffle(out)
        elif fam in ("blocks", "insts", "dups"):
            nb = N if fam != "insts" else r.choice([1, 2])
            out.append("define void @f() {")
            pop = r.randrange(nb)
            for i in range(nb):
                out.append("b%d:" % (i if fam != "dups" or r.random() < 0.7 else r.randrange(nb)))
                for _ in range(r.choice([0, 1, 1, 2]) if fam != "insts" else r.choice([20, 70, 130])):
                    t = "b%d" % (pop if r.random() < 0.4 else r.randrange(nb))
                    y = r.random()
                    if y < 0.4:
                        out.append("  br " + t)
                    elif y < 0.5:
                        out.append("  br int1 %%v%d, %s, b%d" % (r.randrange(N), t, r.randrange(nb)))
                    elif y < 0.6:
                        out.append("  switch int32 1, default=%s," % t + ",".join(" int32 %d label=b%d" % (k, r.randrange(nb)) for k in range(r.choice([0, 2, 9, 17, 40]))))
                    elif y < 0.65:
                        out.append("  int8 %%p%d = phi " % i + ", ".join("[b%d, %%v%d]" % (r.randrange(nb), r.randrange(N)) for k in range(r.choice([1, 5, 20]))))
                    else:
                        out.append("  int32 %%v%d = add int32 %%v%d, int32 %s" % (r.randrange(N), r.randrange(N), r.choice(["1", "%v0", "%v1"])))
            out.append("}")
            if r.random() < 0.5:
                out += ["define void @g(int32 %v1) {", "b0:", "  br b1", "b1:", "  ret %v1", "}"]
        elif fam == "funcs":
            for i in range(r.choice([10, 17, 33])):
                out += ["define void @f%d(int32 %%v1) {" % (i if r.random() < 0.9 else r.randrange(10)), "a:", "  int32 %%v%d = add %%v1, @f%d" % (r.choice([1, 2, 3, 9, 10]), r.randrange(35)),
                        r.choice(["  br a", "  br b", "  br b%d" % i]), "b:", r.choice(["  br a", "  ret %v1", "  br int1 %v1, a, b"]), "}"]
        elif fam == "long":
            for _ in range(r.choice([3, 6])):
                k = r.choice([40, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300])
                nm = r.choice(["x", "ab", "a::", "é", "𝒜"] if self.uni else ["x", "ab", "a::"]) * k
                nm = (nm[:k] + r.choice(["", "z", "1", "42"])).rstrip(":") + r.choice(["", "q"])
                y = r.random()
                if y < 0.3:
                    out += ["@%s = @%s, %s" % (nm, nm[:-1], '"' + nm + '"'), "@h = @%s # %s" % (nm, nm)]
                elif y < 0.6:
                    out += ["define void @f(int32 %%%s) {" % nm, "%s:" % nm, "  int32 %%v = add %%%s, @%s" % (nm, nm), "  br %s" % nm, "}"]
                elif y < 0.8:
                    out += ["define void @%s() {" % nm, "  br %s !%s" % (nm, nm), "}", "!%s = %s" % (nm, nm)]
                else:
                    out += [" " * k + "@g = @h", "@g2 = " + ", ".join("@g%d" % i for i in range(k // 4))]
        elif fam == "dbg":
            for i in range(N):
                out.append("!%d = %s" % (i if r.random() < 0.9 else r.randrange(N), r.choice(['"a.cpp:%d"' % i, "{}", '{"backtrace": [["f%d", "dir/b.cpp:%d"]]}' % (i, i)])))
            out += ["define void @f() {"] + ["  ret !%d" % r.randrange(N + 2) for _ in range(N // 2)] + ["}"]
            if r.random() < 0.5:
                out = out[N:] + out[:N]
        elif fam == "errs":
            for i in range(N):
                out.append(r.choice(self.GARBAGE) if r.random() < 0.5 else r.choice(["@g%d = @g%d" % (i, r.randrange(N)), "declare void @f%d()" % i, "define void @h%d() {\na:\n  br a\n}" % i]))
        elif fam == "lines":
            for i in range(r.choice([130, 260, 300])):
                out.append("" if r.random() < 0.85 else r.choice(["# c", "@g%d = @g%d" % (i, i // 2), "define void @f%d() {\n  br x\n}" % i, "foo", "declare void @d%d()" % i]))
            out.append("@last = @last2")
        else:
            k = r.choice([9, 17, 33, 65])
            out += ["define void @f(%s) {" % ", ".join("int32 %%a%d" % i for i in range(k))] + ["  int32 %%a%d = add %%a%d, %%a%d" % (i, r.randrange(k + 1), r.randrange(k)) for i in range(5)] + ["}"]
            out += ["declare void @g(%s)" % ", ".join("ptr %%a%d" % i for i in range(k)), "@x depends on " + ", ".join("@d%d" % i for i in range(k)),
                    "@y = " + " ".join("@d%d %%a%d" % (i, i) for i in range(k))]
        return self.assemble(out)

    def wreck(self):
        """More malformed statements than well-formed ones"""
        self.reset()
        r = self.r
        out = []
        bad = r.choice([["foo"], ["foo", "}", "$", "@x y", "lbl:"], self.GARBAGE])
        bad = [b for b in bad if '"' not in b]
        p = r.choice([0.3, 0.5, 0.8, 0.95])
        for i in range(r.choice([12, 40, 60, 110, 220])):
            out.append(r.choice(bad) if r.random() < p else r.choice(
                ["@g%d = @g%d" % (i, r.randrange(i + 1)), "declare void @f%d(int32 %%a)" % i, "define void @h%d() {\na:\n  br a\n}" % (i // 2), "!%d = %d" % (i, i), "# c"]))
        return self.assemble(out)

    FAMS = ["globals", "uses", "line", "funcs", "blocks", "fan", "insts", "dbgs", "args", "errs", "cases", "dups", "decls", "locals", "phis"]
    LONGS = ["comment", "string", "global", "local", "label", "num", "hex", "blank", "func", "dbg", "error", "annot"]

    def long(self, what, n):
        """A document with one long token"""
        self.reset()
        x = self.r.choice("xyz") * n
        out = ["@g1 = 1", {"comment": "@g2 = 1 # " + x, "string": '@g2 = "%s" @g1 5' % x, "global": "@%s = @g1" % x, "num": "@g2 = %s @g1 7" % ("9" * n),
                           "hex": "@g2 = 0x%s @g1 7" % ("a" * n), "blank": "@g2 = 1," + " " * n + "@g1 8", "dbg": "!%s = 5" % x, "error": "foo %s @g1" % ("? " * (n // 2) if n < 5000 else x),
                           "annot": '!1 = {"backtrace": [["f", "a.cpp:1"]]%s}' % (" " * n)}.get(what, "@g2 = 2"),
               "define void @%s(int32 %%%s) {" % ("f" + x if what == "func" else "f", x if what == "local" else "v"), (x if what == "label" else "a") + ":",
               "  int8 %%u = add %%%s @g1 !%s" % (x if what == "local" else "v", x if what == "dbg" else "1"), "  br " + (x if what == "label" else "a"), "}",
               "@g3 = %s @%s @f" % ("@" + x if what == "global" else "@g1", "f" + x if what == "func" else "g1")]
        return self.assemble(out)

    def huge(self, sizes=(110, 130, 260, 300, 520, 1030), n=None, fam=None):
        """Beyond the sizes which fit into a byte, or which somebody might regard as enough"""
        self.reset()
        r = self.r
        n = n or r.choice(sizes)
        fam = fam or r.choice(self.FAMS)
        last = n - 1
        if fam in ("funcs", "blocks", "locals", "dups", "errs"):
            n = min(n, 300)
            last = n - 1
        if fam == "globals":
            out = ["@g%d = %d" % (i, i) for i in range(n)] + ["@u = @g%d @g%d @g%d" % (last, n, n // 2)]
        elif fam == "uses":
            out = ["@u%d = @g1 @x" % i for i in range(n)] + ["@g1 = 1"]
        elif fam == "line":
            out = ["@u = " + "@g1 @x " * n + "@y"] + ["@g1 = 1"]
        elif fam == "funcs":
            out = ["define void @f%d(int32 %%a) {\nb1:\n  br b1\n}" % i for i in range(n)] + ["define void @f%d() {\nb1:\n  br b2 !1\nb2:\n  add %%a\n}" % n, "@h = @f%d" % last]
        elif fam == "blocks":
            out = ["define void @f() {"] + ["b%d:\n  br b%d" % (i, i + 1) for i in range(n)] + ["}"]
        elif fam == "fan":
            out = ["define void @f() {", "a:"] + ["  br int1 %%v, a, b%d" % i for i in range(n // 2)] + ["b%d:" % last, "  br a", "}"]
        elif fam == "insts":
            out = ["define void @f() {", "a:"] + ["  add int32 %d" % i for i in range(n)] + ["  br a", "}"]
        elif fam == "dbgs":
            out = ['!%d = "a.cpp:%d"' % (i, i) for i in range(n)] + ["declare void @f() !%d" % last, "define void @g() {", "  call @f !%d" % last, "  call @f !%d" % n, "}"]
        elif fam == "args":
            out = ["define void @f(%s) {" % ", ".join("int32 %%a%d" % i for i in range(n)), "  add %%a%d, %%a%d" % (last, n), "}"]
        elif fam == "errs":
            out = ["foo" if i % 3 else "@g%d = @h" % i for i in range(n)]
        elif fam == "cases":
            out = ["define void @f() {", "a:", "  switch int32 %v, default=a," + ",".join(" int32 %d label=%s" % (i, "a" if i < last else "b") for i in range(n)), "b:", "  br a", "}"]
        elif fam == "dups":
            out = ["@g = %d" % i for i in range(n)] + ["define void @f() {\na:\na:\n  int8 %v = add\n  int8 %v = add\n}"]
        elif fam == "decls":
            out = ["declare void @f%d(int32 %%a)" % i for i in range(n)] + ["@h = @f%d @f%d" % (last, n)]
        elif fam == "locals":
            out = ["define void @f() {", "a:"] + ["  int32 %%v%d = add int32 %%v%d" % (i, max(0, i - 1)) for i in range(n)] + ["  br a", "}"]
        else:
            out = ["define void @f() {", "a:", "  int8 %p = phi " + ", ".join("[%s, %d]" % ("a" if i < last else "b", i) for i in range(n)), "  br int1 %p, a, b", "b:", "}"]
        return self.assemble(out)

    def wide(self, sizes=(250, 255, 256, 1000, 4096, 32768, 65530, 65536, 70000)):
        """Very long lines and tokens"""
        self.reset()
        r = self.r
        n = r.choice(sizes)
        long = r.choice(['"' + r.choice(["x", "é", "😀"] if self.uni else ["x", " "]) * n + '"', " " * n, "\t" * n]) if n > 5000 else \
            r.choice(['"' + "x" * n + '"', " " * n, "%" + "x" * n, "5 , " * (n // 4), "@g1 " * (n // 4), "9" * n, "@" + "y" * n])
        out = ["@g1 = 1", r.choice(["@g2 = ", "declare void @f1", "foo ", "!1 = ", ""]) + long + " @g1 %v1 5 " + r.choice(["", "!1", "$", "# c @g1", "@g3"]),
               "define void @f1(int32 %v1) {", r.choice(["a:", long[:n if n < 5000 else 10] + " a:"]), "  br a" + r.choice(["", " !1", "  " + long + " !1"]), "}"]
        if n > 5000 and r.random() < 0.3:
            out += ["# " + r.choice("c #@") * n]
        if n < 5000 and r.random() < 0.3:
            out += ["@" + "z" * n + " = " + "@" + "z" * n, "# " + "c" * n, "!2 = " + long]
        if r.random() < 0.3:
            r.shuffle(out)
        return self.assemble(out)

    def near(self):
        """A well-formed document with some tokens replaced by similar ones, which mean something else or nothing"""
        r = self.r
        t = self.clean(r.choice([1, 2, 3])) if r.random() < 0.7 else self.flow(1)
        ms = list(TOKEN.finditer(t))
        for m in sorted(r.sample(ms, min(len(ms), r.choice([1, 1, 2, 3, 6, 12]))), key=lambda m: -m.start()):
            w = m.group()
            if w in NEAR:
                n = r.choice(NEAR[w])
            elif w in TYPES:
                n = r.choice(NEAR["type"])
            elif w in MODS:
                n = r.choice(NEAR["mod"])
            elif w[0] in "@%!":
                n = r.choice([w[0] * 2 + w[1:], w[1:], w[0], r.choice("@%!$&^~?") + w[1:], w + r.choice(["-", ".", "'", "$", ":", "::", ":x", "::1", ".y", "-y", "+1", "/2"]),
                              w[0] + " " + w[1:], w[0] + ":" + w[1:], w[0] + "1" + w[1:], w[0] + "_", w + " " + w, w + w, w + "," + w, w.upper() if w.isascii() else w])
            elif w[0] == '"':
                n = r.choice(["'" + w[1:-1] + "'", w + w, w[:-1], w[1:], "`" + w[1:-1] + "`", "u" + w, w + "x", w[:-1] + '\\"', '""' + w, w + ' ' + w])
            elif w[0].isdigit() and w.isascii():
                n = r.choice(NEAR["num"])
            elif re.match(r"\w", w):
                n = r.choice([w + "br", w + ":", "_" + w, w.upper() if w.isascii() else w, "x:" + w, w + "::a", w + ".b", w + "-c", "'" + w, w + " " + w, w + "=", "@" + w, "%" + w, "!" + w, "br", "phi",
                              "switch", "define", "declare", "void", "pure", "depends", "label", "5", "0x1"])
            else:
                n = r.choice(["/", "+", "-", "&", "|", "'", "\\", "~", "`", "?", "^", "$", w + w, w + " " + w, "=="])
            t = t[:m.start()] + n + t[m.end():]
        return t

    def soup(self):
        self.reset()
        r = self.r
        toks = KEYWORDS + PUNCT * 2 + ["\n"] * 12 + ["@g", "@f", "%v1", "%v2", "!1", "!2", "a", "b", "br", "phi", "switch", "depends", "on",
                                                     "cont", "default", "label", "overflow", "5", "0", "0x1", '"s"', "#c\n", "$", '"', "?",
                                                     "define void @f() {\n", "}\n", "a:\n", "br a\n", "\r\n"] * 2
        return r.choice(["", " "]).join(r.choice(toks) + r.choice([" ", "", " "]) for _ in range(r.randrange(1, 40)))

    def noise(self):
        self.reset()
        r = self.r
        al = list("abx01 \t\n\n\n@%!#\"=,(){}[]:+-*<>$?.~'\\/") + UNI_LETTERS + UNI_OTHER + ODD_NUM + ["\r\n", "\r"]
        return "".join(r.choice(al) for _ in range(r.randrange(0, 60)))

    def doc(self):
        x = self.r.random()
        if x < 0.45:
            return self.clean()
        if x < 0.45 + self.p["mutate"]:
            return self.messy()
        if x < 0.95:
            return self.soup()
        return self.noise()

    # -- positions and names --------------------------------------------------------------
    def position(self, text, rx=r"[@%!]?[\w:]+"):
        """A position which is likely to be on a name"""
        r = self.r
        x = r.random()
        lines = re.split(r"\r\n|\n|\r", text)
        if x < 0.04:
            return r.choice([(len(lines), 0), (len(lines) + 5, 3), (1000000, 0), (0, 100000), (len(lines) - 1, 100000)])
        if x < 0.12:
            i = r.randrange(len(lines))
            return i, r.randrange(len(lines[i].encode("utf-16-le")) // 2 + 3)
        # (some of the expressions need quadratic time for long lines)
        ms = [(i, m) for i, l in enumerate(lines) for m in re.finditer(rx if len(l) < 2000 else r"[@%!]?[\w:]+", l)]
        if not ms:
            return 0, 0
        i, m = r.choice(ms)
        l = lines[i]
        c = r.choice([m.start(), m.start(), m.end() - 1, m.end(), (m.start() + m.end()) // 2])
        return i, len(l[:c].encode("utf-16-le")) // 2

    def absname(self):
        """A new name which is no relative one"""
        r = self.r
        if r.random() < 0.25:
            return r.choice(["@", "%", "!", ""]) + r.choice(["x", "_1", "int32x", "define", "a:b", "::", "ptr", "9a", "a9", "zz", "v1", "g1", "f1", "b1", "²a",
                                                            "a²", "1", "pure", "declarex", "int", "int128", "x:y:", "_", "a1_", "new name", "x\ty"])
        while True:
            n = self.newname()
            if n[:1] not in ("+", "-") or r.random() < 0.1:
                return n

    def relname(self):
        r = self.r
        if r.random() < 0.12:
            return self.newname()
        return r.choice(["+", "-"]) + r.choice(["0", "1", "1", "2", "3", "7", "8", "10", "11", "99", "100", "1000", "9223372036854775807", "9223372036854775806",
                                               "007", "4611686018427387904", "18446744073709551615"])

    def mixname(self):
        return r() if (r := self.r.choice([self.absname, self.relname])) else ""

    def newname(self):
        r = self.r
        self.uni = r.random() < 0.3
        x = r.random()
        if x < 0.35:
            return r.choice(["+", "-"]) + r.choice(["1", "2", "5", "10", "100", "0", "9223372036854775807", "9223372036854775808",
                                                    "x", "", "1x", "+5", "-5", " 1", "007", "-9223372036854775808", "1.5", "99999999999999999999"])
        if x < 0.75:
            return r.choice(["", "", "@", "%", "!"]) + self.ident()
        return r.choice(["", "@", "%", "!", "a b", "a-b", "1", "@1", "%1", "!1", "12", "a:", "a::b", ":a", "@@a", "%@a", "define", "int32", "pure",
                         "@define", "%int32", "a\n", "a ", " a", "a#", "\"a\"", "0x1", "ä", "𝒜", "😀", "a😀", "²", "!", "!!", "a.b", "_", "@_", "!²",
                         "!1a", "exportedx", "é1"])
