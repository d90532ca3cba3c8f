"""The editor extension: TLC generates schedules (MCExt.tla), ext/host.js replays them on the real extension, and TLC
validates what the extension did against spec/Extension.tla.  The server which the extension launches is the real one."""
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import time

from tlc import clean, printed, stats, tlc

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
NSHARD = 8

CONTENTS = ["digraph{a->b}", "", " ", "digraph {}\n", "0", "null", "\u00e4\u2028\U0001d49c", "x" * 20000, "digraph{\"a\\\"b\"}\r\n", "false", "#", "\\", "${x}"]
TITLES = ["@f", "", "f \u2014 CFG", "@a b", None, "0", "@\"x\""]
# requests which carry no graph
INVALID = [{}, {"title": "@f"}, {"dotGraph": None}, {"dotGraph": 5}, {"dotGraph": ["a"]}, {"dotGraph": {"x": 1}}, {"dotGraph": True}, {"dotGraph": 0}, {"content": "x"}]
DIRS = ["/ext", "/home/u/.vscode/extensions/hyper ir-0.0.3", "/a/b", "/\u00e9"]


def ops(hist, r):
    """The schedule of a generated behaviour, with data"""
    res = []
    for h in hist:
        k = h["k"]
        if k == "activate":
            res.append(dict(k=k, env=r.choice([None, None, "/opt/server", "srv", "/x y/hyper-ir-lsp", "./rel/server"]), dir=r.choice(DIRS)))
        elif k == "ask":
            if h["ok"]:
                p = {"dotGraph": r.choice(CONTENTS)}
                t = r.choice(TITLES)
                if t is not None:
                    p["title"] = t
            else:
                p = r.choice(INVALID)
            res.append(dict(k=k, id=h["id"], params=p))
        elif k == "settle":
            res.append(dict(k=k, id=h["id"], ok=h["ok"]))
        else:
            res.append(dict(k=k))
    return res


def shard(args):
    repo, binary, scratch, scheds = args
    os.makedirs(scratch, exist_ok=True)
    s, t = os.path.join(scratch, "schedules.json"), os.path.join(scratch, "trace.ndjson")
    with open(s, "w") as f:
        json.dump(scheds, f)
    p = subprocess.run(["node", os.path.join(ROOT, "ext", "host.js"), os.path.join(repo, "vscode-extension/src/extension.ts"), s, t, binary],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600, cwd=scratch)
    if p.returncode or not os.path.exists(t):
        return dict(scratch=scratch, err=p.stdout[-3000:], bad=[], states=(0, 0), events=0)
    with open(t) as f:
        n = sum(1 for _ in f)
    rc, out = tlc("TraceExt.tla", "TraceExt.cfg", os.path.join(scratch, "meta"), 1, env=dict(TRACE_FILE=t))
    bad = [int(l) for l in re.findall(r'<<"MISMATCH", (\d+), ', out)]
    err = None if '<<"DONE", ' in out else out[-3000:]
    return dict(scratch=scratch, err=err, bad=bad, states=stats(out), events=n)


def replay_file(pid, n, scratch, line, scheds):
    with open(os.path.join(scratch, "trace.ndjson")) as f:
        evs = [json.loads(x) for x in f]
    a = line - 1
    while evs[a]["e"] != "boot":
        a -= 1
    k = sum(1 for e in evs[:a] if e["e"] == "boot")
    d = os.path.join(ROOT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d.json" % (pid, n))
    with open(path, "w") as f:
        json.dump(dict(property=pid, schedule=scheds[k], events=evs[a:line]), f, indent=1)
    return path, evs[line - 1]


def run(pid, plan, tier, deep, seed, factor, scratch, t0, build, NoAnswer, repo):
    r = random.Random(seed)
    cfgs = ["MCExt.cfg"] + (["MCExtBig.cfg"] if deep else [])
    with cf.ThreadPoolExecutor(6) as ex:
        fb = ex.submit(build, scratch)
        fm = [ex.submit(tlc, "MCExt.tla", c, os.path.join(scratch, "m-" + c), 4) for c in cfgs]
        fg = ex.submit(tlc, "MCExt.tla", "GenExt.cfg", os.path.join(scratch, "gen"), 2)
        fs = ex.submit(tlc, "MCExt.tla", "GenExt3.cfg", os.path.join(scratch, "gen3"), 1,
                       None, ["-simulate", "num=%d" % int(1500 * factor), "-depth", "60", "-seed", str(seed)])
        binary = fb.result()
        models = []
        for c, f in zip(cfgs, fm):
            out = f.result()[1]
            if not clean(out):
                raise NoAnswer("model %s fails\n%s" % (c, out[-3000:]))
            models.append((c[:-4],) + stats(out))
        gen = printed(fg.result()[1], "SEQ")
        sim = printed(fs.result()[1], "SEQ")
    if not gen or not sim:
        raise NoAnswer("the generator failed\n" + fg.result()[1][-1500:] + fs.result()[1][-1500:])
    gen.sort(key=json.dumps)
    sim = sorted({json.dumps(x) for x in sim})
    sim = [json.loads(x) for x in sim]
    scheds = [ops(h, r) for h in gen + sim]
    if deep:
        for _ in range(3):
            scheds += [ops(h, r) for h in gen]
    # all data with the simplest schedule, and the real server
    for p in [{"dotGraph": c, "title": t} for c in CONTENTS for t in TITLES if t is not None] + INVALID:
        for oks in ([True, True, True], [False, True, True]):
            scheds.append([dict(k="activate", env=None, dir="/ext"), dict(k="ask", id=1, params=p)] + [dict(k="settle", id=1, ok=o) for o in oks])
    r.shuffle(scheds)
    serve = [dict(k="activate", env="<server>", dir="/ext"), dict(k="serve", id=1), dict(k="deactivate"), dict(k="settle", id=0, ok=True)]
    shards = [[serve] + scheds[k::NSHARD] for k in range(NSHARD)]
    jobs = [(repo, binary, os.path.join(scratch, "s%d" % k), s) for k, s in enumerate(shards)]
    with cf.ThreadPoolExecutor(NSHARD) as ex:
        results = list(ex.map(shard, jobs))
    bad = [(res["scratch"], l, shards[k]) for k, res in enumerate(results) for l in res["bad"]]
    ts = sum(res["states"][1] for res in results)
    n = sum(len(s) for s in shards)
    evidence = dict(
        property=pid, tier=tier, seed=seed, level="model_checking",
        coverage=dict(states=sum(m[2] for m in models) + ts, transitions=sum(m[1] for m in models) + ts,
                      traces_validated_against_impl=n, samples=[json.dumps(s)[:400] for s in scheds[:3]],
                      events_validated=sum(res["events"] for res in results),
                      models=[dict(model=m[0], generated=m[1], distinct=m[2]) for m in models],
                      generated_behaviours=dict(all_with_two_requests=len(gen), sampled_with_three=len(sim))),
        assumptions=["the editor and its client library are stand-ins (ext/host.js) which record the calls of the extension",
                     "TypeScript is translated without type checking"],
        wall_s=round(time.time() - t0, 1), violations=len(bad))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    if bad:
        for i, (sc, l, s) in enumerate(bad[:3]):
            path, ev = replay_file(pid, i, sc, l, s)
            print("violated: %s (%d mismatches)\n  observed %s" % (ev["e"], len(bad), json.dumps(ev, ensure_ascii=False)[:700]))
            if i == 0:
                first = path
        print("VIOLATION property=%s replay=%s" % (pid, first))
        return 1
    for res in results:
        if res["err"]:
            raise NoAnswer("the validation failed: " + res["err"])
    print("%s held: %d schedules, %d events, %d model states, %.0f s" % (pid, n, evidence["coverage"]["events_validated"], evidence["coverage"]["states"], evidence["wall_s"]))
    return 0
