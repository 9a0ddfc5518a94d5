#!/usr/bin/env python3
"""Writes driver/life.cc and driver/nest.cc (scenarios for C24, C25, C33, C34)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from checks.lifetab import *

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ['''// Generated by tools/gen_life.py: lifetime of transactions, ids, observers, nesting. Interpreted by checks/life.py, never run.
#include "common.hh"

#include <type_traits>
#ifndef TECS_HEADER_ONLY
    #include <Tecs.cc>
#endif

namespace vf {
    using W2 = ECS<A>;
    template<typename L>
    void byvalue(L l) {
        mark("alive");
    }
    template<typename L>
    void byref(const L &l) {
        mark("alive");
        auto copy = l;
        mark("alive");
    }
''']
w = out.append
for name, (start, expr) in DERIVE.items():
    w(f'''    // the derived lock outlives the one it was derived from
    void life_{name}(W &w) {{
        {{
            auto d = [&]() {{
                auto l = w.StartTransaction<{start}>();
                mark("started");
                observe("first", l);
                auto x = {expr};
                mark("alive");
                return x;
            }}();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }}
        mark("dead");
        mark("stop");
    }}
    // the derived lock is gone first
    void first_{name}(W &w) {{
        {{
            auto l = w.StartTransaction<{start}>();
            mark("started");
            observe("first", l);
            {{
                auto x = {expr};
                mark("alive");
            }}
            mark("alive");
            (void){expr};
            mark("alive");
            byvalue({expr});
            mark("alive");
            observe("last", l);
        }}
        mark("dead");
        mark("stop");
    }}
    // the derived lock is the only one, and an exception ends it
    void throw_{name}(W &w) {{
        try {{
            auto d = [&]() {{
                auto l = w.StartTransaction<{start}>();
                mark("started");
                observe("first", l);
                return {expr};
            }}();
            mark("alive");
            throw 1;
        }} catch (int) {{
        }}
        mark("dead");
        mark("stop");
    }}
''')
for name, (start, stmt) in INSIDE.items():
    w(f'''    void inside_{name}(W &w, Entity &e, A &a, G &g{", " + OBSP if "ob" in stmt else ""}) {{
        {{
            auto l = w.StartTransaction<{start}>();
            mark("started");
            observe("first", l);
            try {{
                {stmt}
            }} catch (const std::exception &) {{
            }}
            mark("alive");
            observe("last", l);
            mark("stop");
        }}
    }}
''')
w('''    void traits(W &w) {
        using T = Transaction<W, Write<A>>;
        using B0 = BaseTransaction<ECS, A, B, G>;
        if constexpr (std::is_copy_constructible<T>::value) mark("Transaction is copy constructible");
        if constexpr (std::is_move_constructible<T>::value) mark("Transaction is move constructible");
        if constexpr (std::is_copy_assignable<T>::value) mark("Transaction is copy assignable");
        if constexpr (std::is_move_assignable<T>::value) mark("Transaction is move assignable");
        if constexpr (std::is_copy_constructible<B0>::value) mark("BaseTransaction is copy constructible");
        if constexpr (std::is_move_constructible<B0>::value) mark("BaseTransaction is move constructible");
        if constexpr (std::is_copy_assignable<B0>::value) mark("BaseTransaction is copy assignable");
        if constexpr (std::is_move_assignable<B0>::value) mark("BaseTransaction is move assignable");
        if constexpr (std::is_copy_constructible<W>::value) mark("ECS is copy constructible");
        if constexpr (std::is_move_constructible<W>::value) mark("ECS is move constructible");
        if constexpr (std::is_copy_assignable<W>::value) mark("ECS is copy assignable");
        if constexpr (std::is_move_assignable<W>::value) mark("ECS is move assignable");
        mark("stop");
    }
    // ---- ids ----
    void iid(W &w) {
        observe("iid", w.GetInstanceId());
        mark("stop");
    }
    void make_w() {
        W i;
        mark("made");
        observe("iid", i);
        mark("stop");
    }
    void make_w2() {
        W2 i;
        mark("made");
        observe("iid", i);
        mark("stop");
    }
#ifndef TECS_HEADER_ONLY
    void tid_w(W &w) {
        auto l = w.StartTransaction<Read<A>>();
        observe("tid", l.GetTransactionId());
        mark("stop");
    }
    void tid_ar(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        observe("tid", l.GetTransactionId());
        mark("stop");
    }
    void tid_w2(W2 &x) {
        auto l = x.StartTransaction<Write<A>>();
        observe("tid", l.GetTransactionId());
        mark("stop");
    }
    void tid_life(W &w) {
        auto l = w.StartTransaction<Write<A>, Read<B>>();
        observe("tid", l.GetTransactionId());
        auto m = l.Subset<Read<A>>();
        observe("same", m.GetTransactionId());
        observe("same", l.ReadOnlySubset().GetTransactionId());
        DynamicLock<W, Read<A>> d(l);
        observe("same", d.GetTransactionId());
        auto t = d.TryLock<Write<A>>();
        if (t) observe("same", t->GetTransactionId());
        observe("same", l.GetTransactionId());
        mark("stop");
    }
#endif
    // ---- observers ----
''')
for i, ev in enumerate(EVENTS):
    w(f'''    void watch_{i}(W &w) {{
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        auto o = l.Watch<{ev}>();
        observe("watched", o, o.operator bool());
        mark("done");
        mark("stop");
    }}
    void stop_{i}(W &w, Observer<W, {ev}> &ob) {{
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        l.StopWatching(ob);
        mark("done");
        observe("after", ob.operator bool());
        mark("stop");
    }}
    void stop2_{i}(W &w, Observer<W, {ev}> &ob) {{
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        ob.Stop(l);
        mark("done");
        observe("after", ob.operator bool());
        mark("stop");
    }}
    void poll_{i}(W &w, Observer<W, {ev}> &ob, {ev} &event) {{
        auto l = w.StartTransaction<>();
        mark("begin");
        bool r = ob.Poll(l, event);
        observe("polled", r);
        mark("done");
        mark("stop");
    }}
    void valid_{i}(W &w, Observer<W, {ev}> &ob) {{
        bool r = ob;
        observe("valid", r);
        mark("stop");
    }}
    void null_{i}(W &w) {{
        Observer<W, {ev}> o;
        bool r = o;
        observe("valid", r);
        mark("stop");
    }}
''')
w('''} // namespace vf
''')
open(os.path.join(HERE, "driver", "life.cc"), "w").write("\n".join(out))

out = ['''// Generated by tools/gen_life.py: sequences of starting and ending transactions on one thread (C25). Interpreted by checks/life.py.
#include "common.hh"
#include <Tecs.cc>

namespace vf {
    using L = Lock<W, Read<A>>;
    void nest_any(W &w) {
        try {
            auto l = w.StartTransaction<Read<A>>();
            mark("started");
            mark("havoc");
        } catch (const std::exception &) {
            mark("refused");
            mark("stop");
        }
        mark("ended");
        mark("stop");
    }
    void nest_ar(W &w) {
        try {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            mark("havoc");
        } catch (const std::exception &) {
            mark("refused");
            mark("stop");
        }
        mark("ended");
        mark("stop");
    }
''']
w = out.append
for k, seq in enumerate(sequences()):
    params = ", ".join(f"W &{c}" for c in sorted({s[1] for s in seq}))
    w(f"    void seq_{k}({params}) {{ // " + " ".join(seq))
    for c in sorted({s[1] for s in seq}):
        w(f"        L *l{c} = nullptr;")
    for s in seq:
        c = s[1]
        if s[0] == "+":
            w(f'        try {{ mark("try {c}"); auto *n = new L({c}); mark("ok {c}"); l{c} = n; }} catch (const std::exception &) {{ mark("no {c}"); }}')
        else:
            w(f'        mark("end {c}"); delete l{c}; l{c} = nullptr; mark("ended {c}");')
    w('        mark("stop");\n    }')
w("} // namespace vf\n")
open(os.path.join(HERE, "driver", "nest.cc"), "w").write("\n".join(out))
