#!/usr/bin/env python3
"""Is the binding vacuous?  Corrupts recorded answers, one detail each, and asks whether the specification notices.

selftest.py BINARY [SEED] [SCENARIO N DICT]...   prints, for each field of each message, how many corruptions were noticed.
Fields that are never noticed are not constrained by the specification.
"""
import collections, copy, json, os, random, shutil, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness"))
import check
from plans import DOC, LIVE, FLAT
FOCUS = DOC + LIVE + ["publish", "resolve", "command", "lifecycle", "caps", "malformed", "unknown"]


def spots(x, path=()):
    """all details of a message that can be corrupted"""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from spots(v, path + (k,))
    elif isinstance(x, list):
        # lists of equal things; tuples such as ranges keep their shape
        if x and all(isinstance(v, type(x[0])) for v in x) and not isinstance(x[0], int):
            yield path + (("drop", len(x)),)
            yield path + (("dup", len(x)),)
            if len(x) > 1:
                yield path + (("swap", len(x)),)
        for i, v in enumerate(x):
            yield from spots(v, path + (i,))
    else:
        yield path


def corrupt(ev, path, r):
    x = ev
    for k in path[:-1]:
        x = x[k]
    k = path[-1]
    if isinstance(k, tuple):
        y = x
        i = r.randrange(len(y))
        if k[0] == "drop":
            del y[i]
        elif k[0] == "dup":
            y.insert(i, copy.deepcopy(y[i]))
        else:
            j = r.choice([a for a in range(len(y)) if a != i])
            if y[i] == y[j]:
                return False
            y[i], y[j] = y[j], y[i]
        return True
    v = x[k]
    x[k] = (not v) if isinstance(v, bool) else v + r.choice([1, 1, 2, -1 if v > 0 else 1]) if isinstance(v, int) else v + "x" if isinstance(v, str) else 0
    return True


def main():
    binary, seed = sys.argv[1], int((sys.argv + ["1"])[2])
    rest = sys.argv[3:]
    steps = [(rest[i], int(rest[i + 1]), eval(rest[i + 2])) for i in range(0, len(rest), 3)] or [
        ("docs", 60, dict(npos=4, kinds=("clean", "messy", "scoped", "flow"))), ("external", 30, {}), ("refactor", 20, {}), ("history", 8, {}), ("storms", 4, {}), ("lifelong", 20, {})]
    base = tempfile.mkdtemp()
    hit, all_, shape = collections.Counter(), collections.Counter(), collections.Counter()
    miss = {}
    r = random.Random(seed)
    try:
        d = base + "/s"
        print(check.record((binary, seed, d, steps, 60.0)))
        v = check.validate(d, FOCUS)
        assert not v["bad"] and v["done"], (v["bad"][:3], v["out"])
        orig = [json.loads(l) for l in open(d + "/trace.ndjson")]
        method = {}
        for rnd in range(int(os.environ.get("ROUNDS", "6"))):
            evs = copy.deepcopy(orig)
            what = {}
            seen = collections.Counter()
            last = -99
            for i, ev in enumerate(evs):
                if ev["e"] == "boot":
                    method.clear()
                if ev["e"] == "req":
                    method[ev["id"]] = ev["m"]
                if ev["e"] not in ("res", "diag", "show") or i - last < 3:
                    continue
                if ev["e"] == "res" and method.get(ev["id"]) == "codeAction" or ev["e"] == "show":
                    continue    # later messages refer to these
                name = ev["e"] + (":" + method.get(ev["id"], "?") if ev["e"] == "res" else "")
                ps = [p for p in spots(ev) if p[0] not in ("e", "id")]
                if not ps:
                    continue
                pat = lambda p: name + "." + ".".join("*" if isinstance(k, int) else k[0].upper() if isinstance(k, tuple) else str(k) for k in p)
                p = min(ps, key=lambda p: (seen[pat(p)] + all_[pat(p)], r.random()))
                seen[pat(p)] += 1
                if corrupt(ev, p, r):
                    what[i + 1] = pat(p)
                    last = i
            with open(d + "/trace.ndjson", "w") as f:
                for ev in evs:
                    f.write(json.dumps(ev) + "\n")
            # an answer of another shape stops TLC: go on behind it
            for again in range(40):
                v = check.validate(d, FOCUS)
                bad = {l for l, a in v["bad"]}
                if v["done"]:
                    break
                sh = [l for l, a in v["bad"] if a == ["shape"]]
                if not sh:
                    print("no verdict", v["out"][-500:])
                    break
                l = sh[0]
                if l not in what:
                    print("no verdict at", l, json.dumps(evs[l - 1])[:500])
                    break
                shape[what.get(l, "?")] += 1
                hit[what.get(l, "?")] += 1
                all_[what.get(l, "?")] += 1
                what.pop(l, None)
                evs[l - 1] = orig[l - 1]
                with open(d + "/trace.ndjson", "w") as f:
                    for ev in evs:
                        f.write(json.dumps(ev) + "\n")
            for l, w in what.items():
                all_[w] += 1
                if l in bad:
                    hit[w] += 1
                else:
                    miss.setdefault(w, []).append((orig[l - 1], evs[l - 1]))
            extra = bad - set(what)
            print("round", rnd, len(what), "corruptions", len(bad & set(what)), "noticed", len(extra), "other mismatches")
    finally:
        shutil.rmtree(base)
    for w in sorted(all_):
        print("%-70s %4d of %4d%s" % (w, hit[w], all_[w], "" if hit[w] else "   <-- never"))
    if os.environ.get("SHOW"):
        for w, xs in miss.items():
            print(w, json.dumps(xs[0])[:1500])


main()
