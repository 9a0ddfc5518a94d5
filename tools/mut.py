#!/usr/bin/env python3
"""Development aid: apply textual mutations to a scratch copy of /repo/inc and run checks against it.
mut.py FILE.json [name...]; entries: {name, file, old, new, checks: [..], expect: 1|0}"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(m):
    d = tempfile.mkdtemp(prefix="mut")
    try:
        for s in ("inc", "src"):
            shutil.copytree("/repo/" + s, d + "/repo/" + s)
        for e in m.get("edits") or [m]:
            p = d + "/repo/" + e["file"]
            s = open(p).read()
            if e["old"] not in s:
                return m["name"], "NOT APPLICABLE", ""
            n = e.get("n", 1)
            if e.get("nth") is not None:
                parts = s.split(e["old"])
                k = e["nth"]
                s = e["old"].join(parts[: k + 1]) + e["new"] + e["old"].join(parts[k + 1:])
            else:
                s = s.replace(e["old"], e["new"], n if n else -1)
            open(p, "w").write(s)
        out = []
        r = subprocess.run(["python3", R + "/check.py", ",".join(m["checks"])], capture_output=True, text=True,
                           env=dict(os.environ, TECS_REPO=d + "/repo"), timeout=800)
        v, und = [], []
        lines = r.stdout.splitlines()
        if len(m["checks"]) == 1:
            lines.append(f"RC {m['checks'][0]} {r.returncode}")
        for l in lines:
            if "UNDECIDED" in l:
                und.append(l.strip()[:200])
            if " at " in l and l.startswith("  ") and not l.startswith("      ") or "BROKEN" in l:
                v.append(l.strip()[:230])
            if l.startswith("RC "):
                _, c, rc = l.split()
                bad = int(rc) != m.get("expect", 1)
                out.append(f"{c}={rc}{' UNEXPECTED' if bad else ''}" + (f"\n      {v[0]}" if v and (bad or VERB) else "") +
                           (f"\n      {len(und)} {und[0]}" if und and (bad or VERB or not m.get('expect', 1)) else ""))
                v, und = [], []
        if r.stderr.strip():
            out.append(r.stderr[-300:])
        return m["name"], "", " ".join(out)
    finally:
        shutil.rmtree(d)


VERB = "-v" in sys.argv
sys.argv = [a for a in sys.argv if a != "-v"]
ms = json.load(open(sys.argv[1]))
if sys.argv[2:]:
    ms = [m for m in ms if any(a in m["name"] for a in sys.argv[2:])]
with ThreadPoolExecutor(3) as ex:
    for n, e, o in ex.map(one, ms):
        print(n, e, o, flush=True)
