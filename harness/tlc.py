"""Runs TLC."""
import json
import os
import re
import signal
import subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def tlc(module, cfg, metadir, workers=1, env=None, args=(), heap="3g", timeout=3600):
    """Returns (exit code, output); the output ends where TLC starts to print a counterexample
    (which may be huge)"""
    os.makedirs(metadir, exist_ok=True)
    p = subprocess.Popen(
        ["timeout", str(timeout), "java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss512m", "-Xmx" + heap, "-Dfile.encoding=UTF-8",
         "-Djava.io.tmpdir=" + metadir, "-cp", JARS, "tlc2.TLC", "-metadir", metadir, "-noGenerateSpecTE", "-workers", str(workers), *args,
         "-config", cfg, module],
        cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        start_new_session=True)
    out = []
    last = ""
    for line in p.stdout:
        if line.startswith(b'<<"AT",'):   # progress of a trace validation
            last = line
            continue
        out.append(line)
        if b"The behavior up to this point is" in line:
            os.killpg(p.pid, signal.SIGKILL)
            break
    p.stdout.close()
    rc = p.wait()
    if last:
        out.append(last)
    return rc, b"".join(out).decode("utf-8", "replace")


def stats(out):
    """(states generated, distinct states)"""
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def clean(out):
    return "Model checking completed. No error has been found." in out


def printed(out, tag):
    """JSON values printed as strings by PrintT("TAG json")"""
    res = []
    for line in out.split("\n"):
        if line.startswith('"' + tag + " "):
            res.append(json.loads(json.loads(line)[len(tag) + 1:]))
    return res
