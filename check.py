#!/usr/bin/env python3
"""check.py <property id> [--thorough]   decide one property on /repo's current source."""
import importlib, os, sys, traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
from checks import base
from checks.registry import MODULES, SUPPORT


def main():
    pids = sys.argv[1].split(",")
    tier = "thorough" if "--thorough" in sys.argv[2:] else "quick"
    rc, collected = 0, {}
    for pid in pids:
        sup = {}
        for x in SUPPORT.get(pid, "").split():
            m, q = x.split(":")
            src, _, rule = q.partition("/")
            sup.setdefault(m, []).append((src, rule))
        names = MODULES[pid].split("+")
        mods = [importlib.import_module("checks." + m) for m in names + [m for m in sup if m not in names]]
        c = base.Check(pid, tier)
        try:
            if True:
                rules, explain = {}, []
                for name, mod in zip(names + [m for m in sup if m not in names], mods):
                    if mod not in collected:
                        base.WANT = set(pids) | {src for p in pids for x in SUPPORT.get(p, "").split() for src in [x.split(":")[1].split("/")[0]]}
                        notes = []
                        try:
                            recs = mod.collect(c.thorough, lambda *a: notes.append(a))
                        except base.Shape as e:
                            recs = []
                            notes.append(("shape", name, str(e)))
                        collected[mod] = recs, notes
                    recs, notes = collected[mod]
                    for rec in recs:
                        if name in names:
                            rec.into(c)
                        for src, rule in sup.get(name, []):
                            rec.into_as(c, src, rule)
                    a = mod.ASSUME
                    c.assume += [x for x in (a.get(pid, []) if isinstance(a, dict) else a) if x not in c.assume]
                    for src, rule in sup.get(name, []):
                        rules.update({f"{src} {r}": t for r, t in mod.RULES.get(src, {}).items() if rule in ("", r)})
                    if name not in names:
                        continue
                    for n in notes:
                        c.undecided(*n)
                    rules.update(mod.RULES.get(pid, {}))
                    explain.append(mod.EXPLAIN[pid])
                r = c.finish(rules, " ".join(explain))
        except base.Broken as e:
            print(f"{pid}: BROKEN: {e}")
            r = 2
        print(f"RC {pid} {r}") if len(pids) > 1 else None
        rc = max(rc, r)
    return rc


if __name__ == "__main__":
    import threading

    threading.stack_size(512 * 1024 * 1024)
    res = [2]

    def go():
        try:
            res[0] = main()
        except SystemExit as e:
            res[0] = e.code
        except BaseException:
            traceback.print_exc()
            res[0] = 2

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0])
