#!/usr/bin/env python3
"""replay.py <replay file>: repeats the session of a violation with the server of /repo's working tree.

The client's messages are sent again in the recorded order; each is sent after as many messages of
the server have arrived as when it was recorded.  TLC validates what was observed this time.
"""
import json
import os
import shutil
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import check  # noqa: E402
from lsp import ServerHung  # noqa: E402
from plans import PLANS  # noqa: E402
from session import Dead, PAD, Session  # noqa: E402

CLIENT = ("req", "ntf", "reply")


def main():
    rep = json.load(open(sys.argv[1]))
    scratch = tempfile.mkdtemp(prefix="replay-")
    try:
        binary = check.build(scratch)
        rec, raw = [], []
        s = Session(binary, rec)
        PAD[0] = rep["events"][0].get("pad", 0)
        s.raw = raw
        s.boot()
        msgs = list(rep["client_messages"])
        seen = want = 0
        try:
            for ev in rep["events"][1:]:
                if ev["e"] in CLIENT:
                    while seen < want:
                        n = len(rec)
                        s.pump(10.0)
                        seen += len(rec) - n
                    m = msgs.pop(0)
                    rec.append(ev)
                    if "id" in m and "method" in m:
                        s.pending[m["id"]] = ev["m"]
                    s.send(m)
                elif ev["e"] in ("res", "diag", "dot", "odd"):
                    want += 1
            while seen < want:
                n = len(rec)
                s.pump(10.0)
                seen += len(rec) - n
        except ServerHung:
            rec.append(dict(e="dead", why="no answer within 10 s"))
        except Dead:
            pass
        finally:
            s.s.kill()
        with open(os.path.join(scratch, "trace.ndjson"), "w") as f:
            for ev in rec:
                f.write(json.dumps(check.clamp(ev)) + "\n")
        v = check.validate(scratch, PLANS[rep["property"]]["focus"])
        for line, aspects in v["bad"]:
            ev = rec[line - 1]
            req = next((e for e in reversed(rec[:line]) if e["e"] == "req" and e["id"] == ev.get("id")), None)
            print("violated:", ", ".join(aspects), "\n ", check.describe(req, ev))
        if not v["done"]:
            print(v["out"])
        print("%d messages of the client, %d of the server: %s" % (
            len(rep["client_messages"]), seen, "reproduced" if v["bad"] else "not reproduced"))
        return 1 if v["bad"] else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
