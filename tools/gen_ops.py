#!/usr/bin/env python3
"""Generates driver/ops.cc from checks/opstab.py."""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks.opstab import *
o = ["// Generated by tools/gen_ops.py: every operation through every kind of lock.", '#include "common.hh"', "#include <type_traits>", "namespace vf {"]
more = [c for c in wide_cases() if c not in cases()]
for op, var in cases() + more:
    if more and (op, var) == more[0]:
        o.append("#ifdef VF_WIDE")
    ps, body, _ = OPS[op]
    decl = VARIANTS[var][0]
    o += [f"    void op_{op}__{var}(W &w{', ' + ps if ps else ''}) {{", f"        {decl}", '        mark("begin");', f"        try {{ {body} }} catch (...) {{ mark(\"threw\"); }}",
          '        mark("stop");', "    }"]
o.append("#endif")
o += ["    void op_defaults() {", "        A a{};", "        B b{};", "        G g{};", "#ifdef VF_WIDE", "        C c{};", '        observe("defaults", a, b, g, c);', "#else", '        observe("defaults", a, b, g);', "#endif", '        mark("stop");', "    }"]
o.append("} // namespace vf")
open(os.path.join(HERE, "driver", "ops.cc"), "w").write("\n".join(o) + "\n")
print(len(cases()), "cases")
