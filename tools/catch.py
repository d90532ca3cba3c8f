"""catch.py [ids...] [--prop Cxx] [--seed N]: runs the check of each seeded bug's property (or another) against the bug, in /repo."""
import json, os, subprocess, sys, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
prop = args.pop(args.index("--prop") + 1) if "--prop" in args else None
seed = args.pop(args.index("--seed") + 1) if "--seed" in args else "1"
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(ROOT + "/seeded"))
for b in ids:
    d = ROOT + "/seeded/" + b
    pid = prop or json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
    r = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if r.returncode:
        print(b, "DOES NOT APPLY", flush=True)
        continue
    t = time.time()
    try:
        p = subprocess.run(["python3", ROOT + "/harness/check.py", pid, "quick"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED=seed))
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    n = p.stdout.count("violated:")
    print("%-24s %s %s %.0fs %s" % (b, pid, {0: "MISSED", 1: "caught", 2: "NO ANSWER"}.get(p.returncode, "?"), time.time() - t, (p.stdout.split("violated:")[1][:150].replace("\n", " ") if n else p.stdout[-300:])), flush=True)
