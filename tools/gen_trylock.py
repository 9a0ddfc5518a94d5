#!/usr/bin/env python3
"""Generates driver/trylock.cc: run-time lock requests for every pair of permission lists (names are decoded by checks/trylock.py)."""
import os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks.types import *

o = ["// Generated by tools/gen_trylock.py: run-time lock requests.", '#include "common.hh"', "namespace vf {"]


def requests(d):
    r = []
    for j, q in enumerate(PERMS):
        r.append(f'        {{ auto r = {d}.TryLock<{plist(q)}>(); observe("got {j}", (bool)r); if (r) {{ observe("lock {j}", *r); }} }}')
    return r


for i, p in enumerate(PERMS):
    # a request through an unrestricted dynamic lock made from the transaction's own lock
    o += [f"    void tl_direct_{i}(W &w) {{", f"        auto l = w.StartTransaction<{plist(p)}>();", '        mark("started");', '        observe("tx", l);',
          "        DynamicLock<W> d(l);"] + requests("d") + ['        mark("stop");', "    }"]
for i, p in enumerate(PERMS):
    if p in SMALL:
        o += [f"    void tl_view_{i}(W &w) {{", f"        auto l = w.StartTransaction<{plist(p)}>();", '        mark("started");', "        auto v = l.ReadOnlySubset();",
              '        observe("tx", v);', "        DynamicLock<W> d(v);"] + requests("d") + ['        mark("stop");', "    }"]
n = 0
for i, p in enumerate(PERMS):
    for k, s in enumerate(SMALL):
        if p in (("AR",), ("WA",), ("RA", Wr("A")), (R("B", "G"), Wr("A"))) and subset(s, p):
            o += [f"    void tl_narrow_{i}_{k}(W &w) {{", f"        auto l = w.StartTransaction<{plist(p)}>();", '        mark("started");', f"        {lock(s)} v = l;",
                  '        observe("tx", v);', "        DynamicLock<W> d(v);"] + requests("d") + ['        mark("stop");', "    }"]
            o += [f"    void tl_static_{i}_{k}(W &w) {{", f"        auto l = w.StartTransaction<{plist(p)}>();", '        mark("started");', '        observe("tx", l);',
                  f"        {lock(s, 'DynamicLock')} d = l;"] + requests("d") + ['        mark("stop");', "    }"]
o.append("} // namespace vf")
open(os.path.join(ROOT, "driver", "trylock.cc"), "w").write("\n".join(o) + "\n")

# instances with many component types: A, B and G are spread over the machine words of the permission sets
from checks.trylock import MANY, MANYREQ
o = ["// Generated by tools/gen_trylock.py: run-time lock requests on instances with many component types.", '#include "common.hh"',
     "namespace vf {", "    template<int>", "    struct X {", "        int v;", "    };", "} // namespace vf", "namespace vf {"]
for n, at in MANY.items():
    names = [next((c for c, k in at.items() if k == i), f"X<{i}>") for i in range(n)]
    o += [f"    namespace m{n} {{", f"        using W = ECS<{', '.join(names)}>;"]
    for i in MANYREQ:
        o += [f"        void tm_{n}_{i}({lock(PERMS[i])} &l) {{", '            mark("started");', '            observe("tx", l);', "            DynamicLock<W> d(l);"]
        for j in MANYREQ:
            o.append(f'            {{ auto r = d.TryLock<{plist(PERMS[j])}>(); observe("got {j}", (bool)r); if (r) {{ observe("lock {j}", *r); }} }}')
        o += ['            mark("stop");', "        }"]
    o.append(f"    }} // namespace m{n}")
o.append("} // namespace vf")
open(os.path.join(ROOT, "driver", "many.cc"), "w").write("\n".join(o) + "\n")
