#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property.

1. builds the server from /repo's working tree;
2. lets TLC check the models of the property, and generate behaviours from them;
3. drives the real server with these behaviours and with random ones, recording all messages;
4. lets TLC validate the recorded sessions against spec/Server.tla.
(C20, the editor extension: see ext.py.)

Exit 0: held; 1: violated (a line VIOLATION property=... replay=...); 2: no answer.
"""
import bisect
import concurrent.futures as cf
import fcntl
import glob
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = "/repo"
sys.path.insert(0, HERE)

import drive  # noqa: E402
import ext  # noqa: E402
from plans import PLANS  # noqa: E402
from tlc import clean, printed, stats, tlc  # noqa: E402

NSHARD = 8
LOOP = {"MCLoop": True, "MCLoopQ": True, "MCLoopBig": True, "MCLoopLive": True, "MCLoopLazy": True, "BadLoopLock": False, "BadLoopCancel": False}


class NoAnswer(Exception):
    pass


# -- the server --------------------------------------------------------------------------------------
def build(scratch):
    env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="1.74.1", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1",
               CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    env["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + env.get("PATH", "")
    target = os.path.join(REPO, "target")
    env["CARGO_TARGET_DIR"] = target
    os.makedirs(os.path.join(ROOT, ".work"), exist_ok=True)
    with open(os.path.join(ROOT, ".work", "build.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        return build_locked(scratch, env, target)


def build_locked(scratch, env, target):
    # cargo decides by time stamps whether to build; the tree may have changed in any way
    for f in glob.glob(os.path.join(target, "debug/.fingerprint/hyper-ir-lsp-*")):
        shutil.rmtree(f, ignore_errors=True)
    p = subprocess.run(["cargo", "build", "--offline", "--bins"], cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise NoAnswer("the build failed:\n" + p.stdout[-3000:])
    binary = os.path.join(scratch, "hyper-ir-lsp")
    shutil.copy2(os.path.join(target, "debug/hyper-ir-lsp"), binary)
    return binary


# -- models ------------------------------------------------------------------------------------------
def alphabet(name):
    return os.path.join(ROOT, "alphabets", name + ".json")


def model(name, params, scratch, workers, deep):
    """Checks one model; returns (name, parameters, states generated, distinct states)"""
    if name == "MCLoopQ" and deep:
        name = "MCLoop"
    meta = os.path.join(scratch, "model-" + name)
    if name in LOOP:
        rc, out = tlc("ServerLoop.tla", name + ".cfg", meta, workers)
        if LOOP[name] != clean(out) or (not LOOP[name] and "violated" not in out):
            raise NoAnswer("model %s: unexpected outcome\n%s" % (name, out[-3000:]))
    else:
        mod = name if name.startswith("Gen") else "MCDoc"
        rc, out = tlc(mod + ".tla", mod + ".cfg", meta, workers, env=dict(params, ALPHABET=alphabet(name)))
        if not clean(out):
            raise NoAnswer("model %s %s fails\n%s" % (name, params, out[-3000:]))
    shutil.rmtree(meta, ignore_errors=True)
    return (name, params) + stats(out)


def generate(name, params, scratch, limit, seed, workers):
    """Behaviours for replay, generated by TLC"""
    meta = os.path.join(scratch, "gen-" + name)
    r = random.Random(seed)
    if name == "GenSession":
        rc, out = tlc("GenSession.tla", "GenSession.cfg", meta, 1, args=["-simulate", "num=%d" % params["num"], "-depth", "120", "-seed", str(seed)])
        items = printed(out, "HIST")
    elif name.startswith("Gen"):
        rc, out = tlc(name + ".tla", name + ".cfg", meta, workers, env=params)
        items = printed(out, "SEQ")
    else:
        rc, out = tlc("GenDoc.tla", "GenDoc.cfg", meta, workers, env=dict(params, ALPHABET=alphabet(name)))
        words = json.load(open(alphabet(name)))["items"]
        items = ["".join(words[i - 1] for i in w) for w in printed(out, "SEQ")]
    shutil.rmtree(meta, ignore_errors=True)
    if not items:
        raise NoAnswer("generator %s failed\n%s" % (name, out[-3000:]))
    items.sort(key=json.dumps)
    total = len(items)
    if total > limit:
        if isinstance(items[0], str):   # all short ones, and some of the longest
            r.shuffle(items)
            items.sort(key=len)
            items = items[:limit // 5] + r.sample(items[limit // 5:], limit - limit // 5)
        else:
            items = r.sample(items, limit)
    r.shuffle(items)
    return name, items, total


# -- traces ------------------------------------------------------------------------------------------
def clamp(x):
    """TLC's integers have 32 bits, and positions are added to each other"""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return int(max(-1000000000, min(1000000000, x)))
    if isinstance(x, list):
        return [clamp(y) for y in x]
    return {k: clamp(v) for k, v in x.items()}


def record(args):
    """One shard: drives the server"""
    binary, seed, scratch, steps, timeout = args
    os.makedirs(scratch, exist_ok=True)
    ctx = drive.Ctx(binary, seed, scratch, timeout)
    err = None
    try:
        for name, what, params in steps:
            getattr(drive, name)(ctx, what, **params)
    except drive.Stop:
        pass
    except Exception as ex:   # a mistake of the driver, or an answer it cannot deal with
        import traceback
        err = traceback.format_exc()
    with open(os.path.join(scratch, "trace.ndjson"), "w") as f:
        for ev in ctx.rec:
            f.write(json.dumps(clamp(ev)) + "\n")
    with open(os.path.join(scratch, "raw.json"), "w") as f:
        json.dump(ctx.raw, f)
    return dict(events=len(ctx.rec), docs=ctx.docs, sessions=ctx.sessions, err=err, scratch=scratch)


def validate(scratch, focus):
    """TLC validates the trace of a shard"""
    fo = os.path.join(scratch, "focus.json")
    with open(fo, "w") as f:
        json.dump(sorted(set(focus)), f)
    trace = os.path.join(scratch, "trace.ndjson")
    rc, out = tlc("Trace.tla", "Trace.cfg", os.path.join(scratch, "meta"), 1, env=dict(TRACE_FILE=trace, FOCUS_FILE=fo))
    bad = [(int(l), sorted(re.findall(r'"(\w+)"', a))) for l, a in re.findall(r'<<"MISMATCH", (\d+), \{(.*?)\}>>', out)]
    done = re.findall(r'<<"DONE", (\d+), (\d+)>>', out)
    at = re.findall(r'<<"AT", (\d+)>>', out)
    if not done and at and "The behavior up to this point is" in out and "StackOverflow" not in out and "OutOfMemory" not in out:
        # an answer of a shape which cannot even be compared with the specified one
        bad.append((int(at[-1]), ["shape"]))
        print("TLC on an answer: " + " ".join(re.findall(r"(?s)Error: (.*?)Error: The behavior", out)[:1])[:1500])
    return dict(bad=bad, done=bool(done), out=out[-3000:] if not done else "", stats=stats(out))


def session_starts(scratch):
    """The lines of the trace at which sessions start"""
    with open(os.path.join(scratch, "trace.ndjson")) as f:
        return [n for n, x in enumerate(f, 1) if x.startswith('{"e": "boot"')]


def cut(scratch, line):
    """The session up to a line of the trace"""
    with open(os.path.join(scratch, "trace.ndjson")) as f:
        evs = [json.loads(x) for x in f]
    a = line - 1
    while evs[a]["e"] != "boot":
        a -= 1
    raw = [m for i, m in json.load(open(os.path.join(scratch, "raw.json"))) if a < i <= line]
    return evs[a:line], raw


def replay_file(pid, n, scratch, line, aspects):
    evs, raw = cut(scratch, line)
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, n))
    ev = evs[-1]
    req = None
    if ev["e"] == "res":
        req = next((e for e in reversed(evs) if e["e"] == "req" and e["id"] == ev["id"]), None)
    with open(path, "w") as f:
        json.dump(dict(property=pid, violated=aspects, request=req, answer=ev, client_messages=raw, events=evs), f, indent=1)
    return path, req, ev


def describe(req, ev):
    s = json.dumps(ev, ensure_ascii=False)[:700]
    return ("request %s\n  " % json.dumps(req, ensure_ascii=False)[:500] if req else "") + "observed " + s


# -- coverage -----------------------------------------------------------------------------------------
def coverage(scratches):
    methods, nontrivial, texts, samples = {}, {}, set(), []
    pend = {}
    for sc in scratches:
        pend.clear()
        with open(os.path.join(sc, "trace.ndjson")) as f:
            for x in f:
                ev = json.loads(x)
                e = ev["e"]
                if e == "boot":
                    pend.clear()
                elif e == "req":
                    pend[ev["id"]] = ev["m"]
                elif e == "ntf" and ev["m"] == "text":
                    texts.add(hash(ev["p"]["t"]))
                elif e == "res":
                    m = pend.pop(ev["id"], "?")
                    methods[m] = methods.get(m, 0) + 1
                    if ev["r"]["v"]:
                        nontrivial[m] = nontrivial.get(m, 0) + 1
                elif e in ("diag", "dot"):
                    methods[e] = methods.get(e, 0) + 1
                    if ev.get("diags") or ev.get("edges"):
                        nontrivial[e] = nontrivial.get(e, 0) + 1
                if len(samples) < 3 and e == "ntf" and ev["m"] == "text" and 20 < len(ev["p"]["t"]) < 300:
                    samples.append(ev["p"]["t"])
    return methods, nontrivial, len(texts), samples


def known_text(s):
    """line breaks which are none for LSP"""
    s.open("file:///w/known.hir", "# c\u2028\n@g = @h\n", 1)
    s.end()


def known_exit(s):
    """exit while the client keeps its end of the pipe open"""
    s.wait(s.request("shutdown", {}, None))
    s.exit(close=False, timeout=5)


# property -> (what its entry in known-findings.txt contains, session, aspects)
KNOWN = {"C18": ("U+2028", known_text, ["undef"]), "C01": ("stdin", known_exit, ["alive", "lifecycle"])}


def known_finding(binary, scratch, pid):
    """The known findings (see known-findings.txt)"""
    key, body, focus = KNOWN[pid]
    with open(os.path.join(ROOT, "known-findings.txt")) as f:
        listed = [x for x in f.read().split("\n") if x.startswith("known: property=%s " % pid) and key in x]
    d = os.path.join(scratch, "known")
    os.makedirs(d, exist_ok=True)
    ctx = drive.Ctx(binary, 1, d)
    s = ctx.session()
    try:
        s.start()
        body(s)
    except drive.Dead:
        pass
    finally:
        s.s.kill()
    with open(os.path.join(d, "trace.ndjson"), "w") as f:
        for ev in ctx.rec:
            f.write(json.dumps(clamp(ev)) + "\n")
    with open(os.path.join(d, "raw.json"), "w") as f:
        json.dump(ctx.raw, f)
    v = validate(d, focus)
    if not v["done"]:
        raise NoAnswer(v["out"])
    if v["bad"] and listed:
        print("KNOWN-FINDING: property=%s %s" % (pid, listed[0].split(" ", 2)[2]))
        return []
    return [(d, l, a) for l, a in v["bad"]]


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLANS.get(pid)
    deep = tier == "thorough"
    factor = float(os.environ.get("VERIF_FACTOR", "12" if deep else "1"))
    t0 = time.time()
    scratch = os.path.join(ROOT, ".work", "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(scratch)
    try:
        rc = ext.run(pid, plan, tier, deep, seed, factor, scratch, t0, build, NoAnswer, REPO) if pid == "C20" else run(pid, plan, tier, deep, seed, factor, scratch, t0)
    except NoAnswer as ex:
        print("NO ANSWER for %s: %s" % (pid, ex))
        rc = 2
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def run(pid, plan, tier, deep, seed, factor, scratch, t0):
    # 1. and 2.: build, models and generators in parallel
    with cf.ThreadPoolExecutor(8) as ex:
        fb = ex.submit(build, scratch)
        fg = [ex.submit(generate, n, th if deep else q, scratch, lt if deep else lq, seed, 2) for n, q, th, lq, lt in plan.get("gen", [])]
        fm = [ex.submit(model, n, th if deep else q, scratch, 4, deep) for n, q, th in plan["models"]]
        binary = fb.result()
        gens = {n: (items, total) for n, items, total in (f.result() for f in fg)}
        if not deep:
            models = [f.result() for f in fm]
    tb = time.time() - t0

    # 3. and 4.
    jobs = []
    nshard = NSHARD * (4 if deep else 1)
    for k in range(nshard):
        steps = []
        for name, what, params in plan["drive"]:
            if isinstance(what, str):
                items = gens[what][0][k::nshard]
                if items:
                    steps.append((name, items, params))
            else:
                n = int(what * factor)
                steps.append((name, n // nshard + (1 if k < n % nshard else 0), params))
        jobs.append((binary, seed * 1000 + k, os.path.join(scratch, "s%d" % k), steps, 60.0))
    shards, results = [], []
    with cf.ProcessPoolExecutor(NSHARD, mp_context=mp.get_context("fork")) as pex, cf.ThreadPoolExecutor(NSHARD) as tex:
        val = {}
        for fu in cf.as_completed([pex.submit(record, j) for j in jobs]):
            sh = fu.result()
            shards.append(sh)
            val[tex.submit(validate, sh["scratch"], plan["focus"])] = sh
        for fu in cf.as_completed(val):
            results.append((val[fu], fu.result()))
    if deep:
        models = [f.result() for f in fm]
    bad = [(sh["scratch"], l, a) for sh, v in results for l, a in v["bad"]]
    if plan.get("known"):
        bad += known_finding(binary, scratch, pid)

    methods, nontrivial, ntexts, samples = coverage([s["scratch"] for s in shards])
    tstates = sum(v["stats"][1] for _, v in results)
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=sum(m[3] for m in models) + tstates,
            transitions=sum(m[2] for m in models) + tstates,
            traces_validated_against_impl=sum(s["sessions"] for s in shards),
            samples=samples,
            events_validated=sum(s["events"] for s in shards),
            distinct_documents=ntexts,
            messages_of_the_server=methods, of_these_nonempty=nontrivial,
            models=[dict(model=m[0], parameters=m[1], generated=m[2], distinct=m[3]) for m in models],
            generated_behaviours={n: dict(replayed=len(i), of=t) for n, (i, t) in gens.items()},
            aspects=sorted(set(plan["focus"])), build_and_models_s=round(tb, 1)),
        assumptions=["the client follows LSP (full document sync; waits for the answers to initialize and shutdown)",
                     "JSON values and percent-encodings of paths are computed by the harness (Python)"],
        wall_s=round(time.time() - t0, 1), violations=len(bad))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if bad:
        # the shortest session first
        starts = {sc: session_starts(sc) for sc in {b[0] for b in bad}}
        bad.sort(key=lambda b: b[1] - starts[b[0]][bisect.bisect_right(starts[b[0]], b[1]) - 1])
        for n, (sc, l, a) in enumerate(bad[:3]):
            path, req, ev = replay_file(pid, n, sc, l, a)
            print("violated: %s (%d mismatches)\n  %s" % (", ".join(a), len(bad), describe(req, ev)))
            if n == 0:
                first = path
        print("VIOLATION property=%s replay=%s" % (pid, first))
        return 1
    for sh in shards:
        if sh["err"]:
            raise NoAnswer("the driver failed: " + sh["err"])
    for sh, v in results:
        if not v["done"]:
            raise NoAnswer("the validation of a trace failed: " + v["out"])
    print("%s held: %d sessions, %d events, %d documents, %d model states, %.0f s" % (
        pid, evidence["coverage"]["traces_validated_against_impl"], evidence["coverage"]["events_validated"], ntexts,
        evidence["coverage"]["states"], evidence["wall_s"]))
    return 0


if __name__ == "__main__":
    main()
