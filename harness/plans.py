"""For each property: which aspects of Server.tla decide it, which models TLC checks, and which
sessions of the real server are recorded and validated.

Sizes are totals for the quick tier over all shards; the thorough tier multiplies them.
"""
DOC = ["tokens", "definition", "external", "foreign", "declaration", "references", "prepare", "rename", "shift", "action", "outline", "folding", "lens",
       "incoming", "endhints", "backtrace", "syntax", "valid", "undef", "dup", "branch", "cfg"]
LIVE = ["alive", "answers"]

FLAT = ("tokens", "symbols", "folding", "lens", "hints")
UNI = dict(uni=1.0, crlf=0.3)
BIG = ("big", "big", "wreck", "wide")


PLANS = {
    "C01": dict(
        known=True,
        focus=["lifecycle", "caps", "malformed", "unknown", "command"] + LIVE,
        models=[("GenLife", dict(MAXLEN="5"), dict(MAXLEN="6"))],
        gen=[("GenLife", dict(MAXLEN="4"), dict(MAXLEN="5"), 2400, 40000)],
        drive=[("life", "GenLife", {}), ("lifelong", 500, {}), ("external", 60, dict(npos=2)),
               ("robust", 24, dict(p_exotic=0.2))]),
    "C02": dict(
        focus=DOC + LIVE + ["publish", "resolve", "command"],
        models=[("GenHistory", dict(MAXLEN="5"), dict(MAXLEN="6")), ("MCLoopQ", {}, {})],
        gen=[("GenHistory", dict(MAXLEN="4"), dict(MAXLEN="5"), 1400, 12000)],
        drive=[("histories", "GenHistory", {}), ("history", 500, dict(steps=14)), ("history", 40, dict(steps=40, nuri=2)), ("refactor", 150, {}), ("stale", 60, {}),
               ("patience", 16, {}), ("marathon", 8, {}), ("docs", 16, dict(npos=3, kinds=BIG))]),
    "C03": dict(
        focus=DOC + LIVE + ["publish", "unknown", "command", "resolve"],
        models=[("GenHistory", dict(MAXLEN="5"), dict(MAXLEN="6"))],
        gen=[("GenHistory", dict(MAXLEN="4"), dict(MAXLEN="5"), 800, 8000)],
        drive=[("histories", "GenHistory", {}), ("history", 420, dict(steps=16, nuri=5, probe_unknown=0.5)), ("history", 80, dict(steps=30, nuri=8, size=1)),
               ("robust", 40, dict(p_exotic=0.0)),
               ("crowd", 16, {}), ("patience", 16, {}), ("docs", 16, dict(npos=3, kinds=BIG))]),
    "C04": dict(
        focus=["publish", "syntax", "valid", "undef", "dup", "branch"] + LIVE,
        models=[("GenHistory", dict(MAXLEN="5"), dict(MAXLEN="6")), ("MCLoopQ", {}, {})],
        gen=[("GenHistory", dict(MAXLEN="4"), dict(MAXLEN="5"), 900, 9000), ("GenSession", dict(num=300), dict(num=3000), 300, 3000)],
        drive=[("histories", "GenHistory", {}), ("history", 260, dict(steps=24)), ("bursts", 40, {}), ("schedules", "GenSession", {}), ("storms", 80, {}),
               ("patience", 16, {}), ("marathon", 8, {}), ("crowd", 8, {}), ("docs", 24, dict(npos=0, flat=(), commands=0, kinds=BIG))]),
    "C05": dict(
        focus=DOC + LIVE + ["publish", "command", "resolve", "lifecycle"],
        models=[("MCLoopQ", {}, {}), ("MCLoopLive", {}, {}), ("MCLoopLazy", {}, {}), ("BadLoopLock", {}, {}), ("BadLoopCancel", {}, {})],
        gen=[("GenSession", dict(num=900), dict(num=9000), 900, 9000)],
        drive=[("schedules", "GenSession", {}), ("storms", 420, {}), ("bursts", 60, {}), ("history", 60, {}),
               ("patience", 8, dict(pauses=(0.02, 11.0, 0.3), graphs=3)), ("patience", 16, {}), ("marathon", 8, {}), ("crowd", 8, {})]),
    "C06": dict(
        focus=LIVE + ["malformed", "resolve", "publish", "lifecycle", "command", "unknown"],
        models=[("MCLoopQ", {}, {})],
        gen=[("lexical", dict(MAXLEN="3"), dict(MAXLEN="4"), 800, 20000), ("errors", dict(MAXLEN="3"), dict(MAXLEN="4"), 200, 3000)],
        drive=[("robust", 900, {}), ("mcdocs", "lexical", dict(npos=1)), ("mcdocs", "errors", dict(npos=1)), ("storms", 60, {}),
               ("refactor", 80, dict(profile=dict(uni=0.6, big=0.8), kinds=("clean", "messy", "clean"))), ("stale", 120, {}),
               ("docs", 40, dict(npos=3, kinds=BIG)), ("marathon", 4, {}), ("crowd", 4, {}), ("external", 200, dict(profile=dict(uni=0.7))), ("monster", 24, {}),
               ("docs", 240, dict(npos=3, profile=dict(uni=0.8), kinds=("doc", "doc", "soup", "noise", "scoped", "flow")))]),
    "C07": dict(
        focus=["tokens"] + LIVE,
        models=[("lexical", dict(MAXLEN="3"), dict(MAXLEN="4")), ("positions", dict(MAXLEN="3"), dict(MAXLEN="4"))],
        gen=[("lexical", dict(MAXLEN="3"), dict(MAXLEN="4"), 5000, 60000), ("positions", dict(MAXLEN="3"), dict(MAXLEN="4"), 1500, 10000)],
        drive=[("mcdocs", "lexical", dict(npos=0, flat=("tokens",), commands=0, per=300)),
               ("mcdocs", "positions", dict(npos=0, flat=("tokens",), commands=0, per=300)),
               ("docs", 3500, dict(npos=0, flat=("tokens",), commands=0, per=40, kinds=("doc", "soup", "noise", "clean"))),
               ("docs", 1200, dict(npos=0, flat=("tokens",), commands=0, per=40, profile=UNI)),
               ("docs", 1600, dict(npos=0, flat=("tokens",), commands=0, per=40, kinds=("near",))),
               ("docs", 80, dict(npos=0, flat=("tokens",), pos=(), commands=0, kinds=BIG)), ("padded", 12, dict(npos=0, flat=("tokens",), pos=()))]),
    "C08": dict(
        focus=["syntax", "valid"] + LIVE,
        models=[("errors", dict(MAXLEN="3"), dict(MAXLEN="4")), ("lexical", dict(MAXLEN="3"), dict(MAXLEN="4"))],
        gen=[("errors", dict(MAXLEN="3"), dict(MAXLEN="4"), 1800, 22000), ("lexical", dict(MAXLEN="3"), dict(MAXLEN="4"), 3000, 40000)],
        drive=[("mcdocs", "errors", dict(npos=0, flat=(), commands=0, per=300)), ("mcdocs", "lexical", dict(npos=0, flat=(), commands=0, per=300)),
               ("docs", 2500, dict(npos=0, flat=(), commands=0, per=40, kinds=("clean", "messy", "messy"))),
               ("docs", 1500, dict(npos=0, flat=(), commands=0, per=40, kinds=("soup", "noise", "messy"), profile=dict(uni=0.5))),
               ("docs", 1600, dict(npos=0, flat=(), pos=(), commands=0, per=40, kinds=("near",))),
               ("docs", 240, dict(npos=0, flat=(), pos=(), commands=0, kinds=BIG + ("wreck",))), ("padded", 12, dict(npos=0, flat=(), pos=()))]),
    "C09": dict(
        focus=["tokens", "definition", "declaration", "references", "prepare", "outline", "folding", "lens", "incoming", "endhints", "undef", "dup", "branch",
               "cfg", "syntax", "valid", "backtrace", "external"] + LIVE,
        models=[("errors", dict(MAXLEN="3"), dict(MAXLEN="4"))],
        gen=[("errors", dict(MAXLEN="3"), dict(MAXLEN="4"), 1800, 22000)],
        drive=[("mcdocs", "errors", dict(npos=1, pos=("definition", "references"), commands=0.1)),
               ("docs", 1300, dict(npos=3, kinds=("messy",), pos=("definition", "declaration", "references", "prepareRename"))),
               ("external", 240, dict(broken=0.8)), ("docs", 150, dict(npos=2, kinds=("near",))),
               ("docs", 300, dict(npos=2, kinds=("soup",), pos=("definition", "declaration", "references", "prepareRename"))),
               ("docs", 60, dict(npos=3, flat=FLAT, pos=("definition", "declaration", "references", "prepareRename"), commands=0.5, kinds=BIG))]),
    "C10": dict(
        focus=["definition", "declaration", "foreign", "external"] + LIVE,
        models=[("symbols", dict(MAXLEN="3"), dict(MAXLEN="4")), ("calls", dict(MAXLEN="3"), dict(MAXLEN="4"))],
        gen=[("symbols", dict(MAXLEN="3"), dict(MAXLEN="4"), 1400, 15000), ("calls", dict(MAXLEN="3"), dict(MAXLEN="4"), 400, 6000)],
        drive=[("mcdocs", "symbols", dict(npos=5, flat=(), pos=("definition", "declaration"), commands=0)),
               ("mcdocs", "calls", dict(npos=3, flat=(), pos=("definition", "declaration"), commands=0)),
               ("docs", 1100, dict(npos=14, flat=(), pos=("definition", "declaration"), commands=0, kinds=("clean", "clean", "messy", "near"))),
               ("sweeps", 60, dict(methods=("definition", "declaration"), flat=())),
               ("external", 150, {}),
               ("docs", 64, dict(npos=14, flat=(), pos=("definition", "declaration"), commands=0, kinds=BIG)), ("padded", 12, dict(npos=10, flat=(), pos=("definition", "declaration")))]),
    "C11": dict(
        focus=["references"] + LIVE,
        models=[("symbols", dict(MAXLEN="3"), dict(MAXLEN="4"))],
        gen=[("symbols", dict(MAXLEN="3"), dict(MAXLEN="4"), 1400, 15000)],
        drive=[("mcdocs", "symbols", dict(npos=7, flat=(), pos=("references",), commands=0)),
               ("docs", 1400, dict(npos=22, flat=(), pos=("references",), commands=0, kinds=("clean", "clean", "messy", "near"))),
               ("sweeps", 100, dict(methods=("references",), flat=())),
               ("docs", 64, dict(npos=20, flat=(), pos=("references",), commands=0, kinds=BIG)), ("padded", 12, dict(npos=10, flat=(), pos=("references",)))]),
    "C12": dict(
        focus=["definition", "references", "rename", "shift", "action", "resolve", "undef", "dup", "declaration", "prepare", "incoming", "cfg"] + LIVE,
        models=[("scopes", dict(MAXLEN="4"), dict(MAXLEN="5"))],
        gen=[("scopes", dict(MAXLEN="5"), dict(MAXLEN="6"), 900, 12000)],
        drive=[("mcdocs", "scopes", dict(npos=4, flat=("hints",), name="mixname")),
               ("docs", 700, dict(npos=6, flat=("hints",), kinds=("scoped",), rx=r"%[\w]+|[A-Za-z_]\w*(?=\s*:)|\b[a-z]\w*\b", name="mixname")),
               ("docs", 250, dict(npos=6, flat=("hints",), kinds=("clean", "messy", "near"), rx=r"%[\w]+")),
               ("docs", 48, dict(npos=6, flat=("hints",), pos=("definition", "references", "rename", "codeAction"), commands=0.3, kinds=BIG))]),
    "C13": dict(
        focus=["rename", "prepare"] + LIVE,
        models=[("symbols", dict(MAXLEN="3"), dict(MAXLEN="3")), ("scopes", dict(MAXLEN="4"), dict(MAXLEN="5"))],
        gen=[("symbols", dict(MAXLEN="3"), dict(MAXLEN="4"), 1400, 15000)],
        drive=[("mcdocs", "symbols", dict(npos=4, flat=(), pos=("rename", "prepareRename"), commands=0, name="absname")),
               ("docs", 1000, dict(npos=12, flat=(), pos=("rename", "prepareRename"), commands=0, kinds=("clean", "clean", "messy", "near"), name="absname")),
               ("docs", 200, dict(npos=12, flat=(), pos=("rename", "prepareRename"), commands=0, kinds=("scoped",), name="absname", profile=UNI)),
               ("refactor", 400, dict(shift=0.1, chain=4)),
               ("docs", 64, dict(npos=10, flat=(), pos=("rename", "prepareRename"), commands=0, kinds=BIG, name="absname")), ("padded", 12, dict(npos=8, flat=(), pos=("rename", "prepareRename")))]),
    "C14": dict(
        focus=["shift", "action", "resolve"] + LIVE,
        models=[("numbers", dict(MAXLEN="3"), dict(MAXLEN="4"))],
        gen=[("numbers", dict(MAXLEN="3"), dict(MAXLEN="4"), 1100, 11000)],
        drive=[("mcdocs", "numbers", dict(npos=4, flat=(), pos=("rename", "codeAction"), commands=0, name="relname")),
               ("docs", 700, dict(npos=9, flat=(), pos=("rename", "codeAction"), commands=0, kinds=("clean", "clean", "messy", "near"), name="relname",
                                  profile=dict(big=0.6), rx=r"[@%!]?[\w:]*\d+")),
               ("stale", 160, {}), ("refactor", 500, dict(shift=0.95, chain=4, rx=r"[@%!]?[A-Za-z_:]*\d+")),
               ("docs", 120, dict(npos=6, flat=(), pos=("rename", "codeAction"), commands=0, kinds=("doc",), name="relname", profile=UNI)),
               ("docs", 64, dict(npos=8, flat=(), pos=("rename", "codeAction"), commands=0, kinds=BIG, name="relname", rx=r"[@%!]?[A-Za-z_:]*\d+")), ("padded", 12, dict(npos=6, flat=(), pos=("codeAction", "rename")))]),
    "C15": dict(
        focus=["cfg", "command", "incoming", "endhints"] + LIVE,
        models=[("flow", dict(MAXLEN="3"), dict(MAXLEN="4"))],
        gen=[("flow", dict(MAXLEN="4"), dict(MAXLEN="5"), 3000, 20000)],
        drive=[("mcdocs", "flow", dict(npos=0, flat=("hints",), commands=0.6)),
               ("docs", 1500, dict(npos=0, flat=("hints",), commands=0.95, per=10, kinds=("flow", "flow", "clean", "messy", "near"))),
               ("storms", 60, {}), ("patience", 8, dict(pauses=(0.02, 6.0))),
               ("docs", 80, dict(npos=0, flat=("hints",), pos=(), commands=0.9, kinds=BIG)), ("padded", 12, dict(npos=0, flat=("hints",), pos=()))]),
    "C16": dict(
        focus=["undef", "dup", "branch"] + LIVE,
        models=[("symbols", dict(MAXLEN="3"), dict(MAXLEN="4")), ("flow", dict(MAXLEN="3"), dict(MAXLEN="4"))],
        gen=[("symbols", dict(MAXLEN="3"), dict(MAXLEN="4"), 1400, 15000), ("flow", dict(MAXLEN="3"), dict(MAXLEN="4"), 1700, 20000)],
        drive=[("mcdocs", "symbols", dict(npos=0, flat=(), commands=0, per=300)), ("mcdocs", "flow", dict(npos=0, flat=(), commands=0, per=300)),
               ("docs", 2500, dict(npos=0, flat=(), commands=0, per=40, kinds=("clean", "clean", "scoped", "flow", "messy"), profile=dict(dup=0.35, undef=0.4))),
               ("docs", 600, dict(npos=0, flat=(), commands=0, per=40, kinds=("near",))),
               ("docs", 80, dict(npos=0, flat=(), pos=(), commands=0, kinds=BIG)), ("padded", 12, dict(npos=0, flat=(), pos=()))]),
    "C17": dict(
        focus=["outline", "folding", "lens"] + LIVE,
        models=[("flow", dict(MAXLEN="3"), dict(MAXLEN="4"))],
        gen=[("flow", dict(MAXLEN="4"), dict(MAXLEN="5"), 2500, 20000), ("errors", dict(MAXLEN="3"), dict(MAXLEN="4"), 900, 9000)],
        drive=[("mcdocs", "flow", dict(npos=0, flat=("symbols", "folding", "lens"), commands=0, per=150)),
               ("mcdocs", "errors", dict(npos=0, flat=("symbols", "folding", "lens"), commands=0, per=150)),
               ("docs", 2200, dict(npos=0, flat=("symbols", "folding", "lens"), commands=0, per=20, kinds=("clean", "clean", "scoped", "messy", "near"),
                                   profile=dict(dup=0.3))),
               ("docs", 80, dict(npos=0, flat=("symbols", "folding", "lens"), pos=(), commands=0, kinds=BIG)), ("padded", 12, dict(npos=0, flat=("symbols", "folding", "lens"), pos=()))]),
    "C18": dict(
        focus=DOC + LIVE,
        models=[("positions", dict(MAXLEN="3"), dict(MAXLEN="4")), ("lexical", dict(MAXLEN="3"), dict(MAXLEN="3"))],
        gen=[("positions", dict(MAXLEN="3"), dict(MAXLEN="4"), 300, 6000)],
        known=True,
        drive=[("mcdocs", "positions", dict(sweep=True, pos=("definition", "prepareRename"), flat=("tokens", "symbols", "folding", "lens", "hints"), commands=0)),
               ("docs", 500, dict(npos=4, profile=UNI)), ("sweeps", 40, dict(profile=UNI, kinds=("clean", "doc"))),
               ("docs", 150, dict(npos=3, profile=dict(uni=0.2, crlf=1.0))), ("external", 60, dict(profile=dict(uni=1.0))),
               ("padded", 16, {}), ("padded", 8, dict(npos=2, pads=(66000,), per=1)), ("docs", 24, dict(npos=4, kinds=BIG, profile=UNI))]),
    "C19": dict(
        focus=["external", "backtrace", "definition", "foreign"] + LIVE,
        models=[("calls", dict(MAXLEN="3"), dict(MAXLEN="4"))],
        gen=[("calls", dict(MAXLEN="3"), dict(MAXLEN="4"), 1100, 11000)],
        drive=[("mcdocs", "calls", dict(npos=3, flat=("hints",), pos=("definition",), commands=0)),
               ("external", 1000, {}),
               ("docs", 24, dict(npos=3, flat=("hints",), pos=("definition",), kinds=BIG))]),
}


MEGA = ("padded", 4, dict(npos=2, pads=(66000,), per=1, fill=(" " * 16, "\t" * 33)))
for _p in PLANS.values():
    for _n, _k, _a in list(_p["drive"]):
        if "wreck" in _a.get("kinds", ()):
            _p["drive"].append((_n, 24, dict(_a, kinds=("huge",), per=3)))
            _p["drive"].append(("extremes", 56, dict(_a, per=3)))
for _p in ("C02", "C04", "C06", "C18"):
    PLANS[_p]["drive"].append(MEGA)
