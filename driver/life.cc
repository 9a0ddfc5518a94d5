// Generated by tools/gen_life.py: lifetime of transactions, ids, observers, nesting. Interpreted by checks/life.py, never run.
#include "common.hh"

#include <type_traits>
#ifndef TECS_HEADER_ONLY
    #include <Tecs.cc>
#endif

namespace vf {
    using W2 = ECS<A>;
    template<typename L>
    void byvalue(L l) {
        mark("alive");
    }
    template<typename L>
    void byref(const L &l) {
        mark("alive");
        auto copy = l;
        mark("alive");
    }

    // the derived lock outlives the one it was derived from
    void life_same(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = l;
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_same(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = l;
                mark("alive");
            }
            mark("alive");
            (void)l;
            mark("alive");
            byvalue(l);
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_same(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return l;
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_copy(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = Lock<W, Write<A>, Read<B>>(l);
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_copy(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = Lock<W, Write<A>, Read<B>>(l);
                mark("alive");
            }
            mark("alive");
            (void)Lock<W, Write<A>, Read<B>>(l);
            mark("alive");
            byvalue(Lock<W, Write<A>, Read<B>>(l));
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_copy(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return Lock<W, Write<A>, Read<B>>(l);
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_narrow(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = Lock<W, Read<A>>(l);
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_narrow(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = Lock<W, Read<A>>(l);
                mark("alive");
            }
            mark("alive");
            (void)Lock<W, Read<A>>(l);
            mark("alive");
            byvalue(Lock<W, Read<A>>(l));
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_narrow(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return Lock<W, Read<A>>(l);
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_empty(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = Lock<W>(l);
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_empty(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = Lock<W>(l);
                mark("alive");
            }
            mark("alive");
            (void)Lock<W>(l);
            mark("alive");
            byvalue(Lock<W>(l));
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_empty(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return Lock<W>(l);
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_subset(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = l.template Subset<Read<A>>();
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_subset(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = l.template Subset<Read<A>>();
                mark("alive");
            }
            mark("alive");
            (void)l.template Subset<Read<A>>();
            mark("alive");
            byvalue(l.template Subset<Read<A>>());
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_subset(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return l.template Subset<Read<A>>();
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_subset_w(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = l.template Subset<Write<A>>();
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_subset_w(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = l.template Subset<Write<A>>();
                mark("alive");
            }
            mark("alive");
            (void)l.template Subset<Write<A>>();
            mark("alive");
            byvalue(l.template Subset<Write<A>>());
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_subset_w(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return l.template Subset<Write<A>>();
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_readonly(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = l.ReadOnlySubset();
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_readonly(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = l.ReadOnlySubset();
                mark("alive");
            }
            mark("alive");
            (void)l.ReadOnlySubset();
            mark("alive");
            byvalue(l.ReadOnlySubset());
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_readonly(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return l.ReadOnlySubset();
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_readonly2(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<AddRemove>();
                mark("started");
                observe("first", l);
                auto x = l.ReadOnlySubset();
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_readonly2(W &w) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            {
                auto x = l.ReadOnlySubset();
                mark("alive");
            }
            mark("alive");
            (void)l.ReadOnlySubset();
            mark("alive");
            byvalue(l.ReadOnlySubset());
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_readonly2(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<AddRemove>();
                mark("started");
                observe("first", l);
                return l.ReadOnlySubset();
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_dynamic(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = DynamicLock<W, Read<A>>(l);
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_dynamic(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = DynamicLock<W, Read<A>>(l);
                mark("alive");
            }
            mark("alive");
            (void)DynamicLock<W, Read<A>>(l);
            mark("alive");
            byvalue(DynamicLock<W, Read<A>>(l));
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_dynamic(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return DynamicLock<W, Read<A>>(l);
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_dynamic_e(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<AddRemove>();
                mark("started");
                observe("first", l);
                auto x = DynamicLock<W>(l);
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_dynamic_e(W &w) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            {
                auto x = DynamicLock<W>(l);
                mark("alive");
            }
            mark("alive");
            (void)DynamicLock<W>(l);
            mark("alive");
            byvalue(DynamicLock<W>(l));
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_dynamic_e(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<AddRemove>();
                mark("started");
                observe("first", l);
                return DynamicLock<W>(l);
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_try_static(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = *DynamicLock<W, Read<A>>(l).template TryLock<Read<A>>();
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_try_static(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = *DynamicLock<W, Read<A>>(l).template TryLock<Read<A>>();
                mark("alive");
            }
            mark("alive");
            (void)*DynamicLock<W, Read<A>>(l).template TryLock<Read<A>>();
            mark("alive");
            byvalue(*DynamicLock<W, Read<A>>(l).template TryLock<Read<A>>());
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_try_static(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return *DynamicLock<W, Read<A>>(l).template TryLock<Read<A>>();
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_try_dynamic(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = *DynamicLock<W>(l).template TryLock<Write<A>>();
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_try_dynamic(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = *DynamicLock<W>(l).template TryLock<Write<A>>();
                mark("alive");
            }
            mark("alive");
            (void)*DynamicLock<W>(l).template TryLock<Write<A>>();
            mark("alive");
            byvalue(*DynamicLock<W>(l).template TryLock<Write<A>>());
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_try_dynamic(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return *DynamicLock<W>(l).template TryLock<Write<A>>();
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_try_opt(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = DynamicLock<W>(l).template TryLock<Write<A>>();
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_try_opt(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = DynamicLock<W>(l).template TryLock<Write<A>>();
                mark("alive");
            }
            mark("alive");
            (void)DynamicLock<W>(l).template TryLock<Write<A>>();
            mark("alive");
            byvalue(DynamicLock<W>(l).template TryLock<Write<A>>());
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_try_opt(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return DynamicLock<W>(l).template TryLock<Write<A>>();
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_try_chain(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<AddRemove>();
                mark("started");
                observe("first", l);
                auto x = *DynamicLock<W>(DynamicLock<W, Read<A>>(l)).template TryLock<Read<A>>();
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_try_chain(W &w) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            {
                auto x = *DynamicLock<W>(DynamicLock<W, Read<A>>(l)).template TryLock<Read<A>>();
                mark("alive");
            }
            mark("alive");
            (void)*DynamicLock<W>(DynamicLock<W, Read<A>>(l)).template TryLock<Read<A>>();
            mark("alive");
            byvalue(*DynamicLock<W>(DynamicLock<W, Read<A>>(l)).template TryLock<Read<A>>());
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_try_chain(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<AddRemove>();
                mark("started");
                observe("first", l);
                return *DynamicLock<W>(DynamicLock<W, Read<A>>(l)).template TryLock<Read<A>>();
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_chain(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<AddRemove>();
                mark("started");
                observe("first", l);
                auto x = Lock<W, Read<A>>(l.template Subset<Write<A>>()).template Subset<>();
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_chain(W &w) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            {
                auto x = Lock<W, Read<A>>(l.template Subset<Write<A>>()).template Subset<>();
                mark("alive");
            }
            mark("alive");
            (void)Lock<W, Read<A>>(l.template Subset<Write<A>>()).template Subset<>();
            mark("alive");
            byvalue(Lock<W, Read<A>>(l.template Subset<Write<A>>()).template Subset<>());
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_chain(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<AddRemove>();
                mark("started");
                observe("first", l);
                return Lock<W, Read<A>>(l.template Subset<Write<A>>()).template Subset<>();
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_nested(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = Lock<W, Lock<W, Read<A>>, Read<B>>(l);
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_nested(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = Lock<W, Lock<W, Read<A>>, Read<B>>(l);
                mark("alive");
            }
            mark("alive");
            (void)Lock<W, Lock<W, Read<A>>, Read<B>>(l);
            mark("alive");
            byvalue(Lock<W, Lock<W, Read<A>>, Read<B>>(l));
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_nested(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return Lock<W, Lock<W, Read<A>>, Read<B>>(l);
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    // the derived lock outlives the one it was derived from
    void life_ro_of_dyn(W &w) {
        {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                auto x = DynamicLock<W, Read<A>>(l).ReadOnlySubset();
                mark("alive");
                return x;
            }();
            mark("alive");
            byvalue(d);
            mark("alive");
            byref(d);
            mark("alive");
            observe("last", d);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is gone first
    void first_ro_of_dyn(W &w) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            {
                auto x = DynamicLock<W, Read<A>>(l).ReadOnlySubset();
                mark("alive");
            }
            mark("alive");
            (void)DynamicLock<W, Read<A>>(l).ReadOnlySubset();
            mark("alive");
            byvalue(DynamicLock<W, Read<A>>(l).ReadOnlySubset());
            mark("alive");
            observe("last", l);
        }
        mark("dead");
        mark("stop");
    }
    // the derived lock is the only one, and an exception ends it
    void throw_ro_of_dyn(W &w) {
        try {
            auto d = [&]() {
                auto l = w.StartTransaction<Write<A>, Read<B>>();
                mark("started");
                observe("first", l);
                return DynamicLock<W, Read<A>>(l).ReadOnlySubset();
            }();
            mark("alive");
            throw 1;
        } catch (int) {
        }
        mark("dead");
        mark("stop");
    }

    void inside_poll(W &w, Entity &e, A &a, G &g, Observer<W, EntityEvent> &ob, EntityEvent &ev) {
        {
            auto l = w.StartTransaction<Read<A>>();
            mark("started");
            observe("first", l);
            try {
                ob.Poll(l, ev);
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_stop(W &w, Entity &e, A &a, G &g, Observer<W, EntityEvent> &ob, EntityEvent &ev) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            try {
                ob.Stop(l);
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_stopw(W &w, Entity &e, A &a, G &g, Observer<W, EntityEvent> &ob, EntityEvent &ev) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            try {
                l.StopWatching(ob);
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_watch(W &w, Entity &e, A &a, G &g) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            try {
                auto o = l.template Watch<EntityEvent>();
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_new(W &w, Entity &e, A &a, G &g) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            try {
                l.NewEntity();
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_destroy(W &w, Entity &e, A &a, G &g) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            try {
                e.Destroy(l);
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_set(W &w, Entity &e, A &a, G &g) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            try {
                e.Set<A>(l, a);
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_get(W &w, Entity &e, A &a, G &g) {
        {
            auto l = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            observe("first", l);
            try {
                e.Get<A>(l);
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_unset(W &w, Entity &e, A &a, G &g) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            try {
                e.Unset<A>(l);
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_exists(W &w, Entity &e, A &a, G &g) {
        {
            auto l = w.StartTransaction<Read<A>>();
            mark("started");
            observe("first", l);
            try {
                e.Exists(l); e.Existed(l); e.Has<A>(l); e.Had<A>(l);
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_gset(W &w, Entity &e, A &a, G &g) {
        {
            auto l = w.StartTransaction<Write<G>>();
            mark("started");
            observe("first", l);
            try {
                l.template Set<G>(g);
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_gunset(W &w, Entity &e, A &a, G &g) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            try {
                l.template Unset<G>();
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void inside_list(W &w, Entity &e, A &a, G &g) {
        {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            observe("first", l);
            try {
                l.Entities(); l.PreviousEntities(); l.template EntitiesWith<A>(); l.template PreviousEntitiesWith<A>();
            } catch (const std::exception &) {
            }
            mark("alive");
            observe("last", l);
            mark("stop");
        }
    }

    void traits(W &w) {
        using T = Transaction<W, Write<A>>;
        using B0 = BaseTransaction<ECS, A, B, G>;
        if constexpr (std::is_copy_constructible<T>::value) mark("Transaction is copy constructible");
        if constexpr (std::is_move_constructible<T>::value) mark("Transaction is move constructible");
        if constexpr (std::is_copy_assignable<T>::value) mark("Transaction is copy assignable");
        if constexpr (std::is_move_assignable<T>::value) mark("Transaction is move assignable");
        if constexpr (std::is_copy_constructible<B0>::value) mark("BaseTransaction is copy constructible");
        if constexpr (std::is_move_constructible<B0>::value) mark("BaseTransaction is move constructible");
        if constexpr (std::is_copy_assignable<B0>::value) mark("BaseTransaction is copy assignable");
        if constexpr (std::is_move_assignable<B0>::value) mark("BaseTransaction is move assignable");
        if constexpr (std::is_copy_constructible<W>::value) mark("ECS is copy constructible");
        if constexpr (std::is_move_constructible<W>::value) mark("ECS is move constructible");
        if constexpr (std::is_copy_assignable<W>::value) mark("ECS is copy assignable");
        if constexpr (std::is_move_assignable<W>::value) mark("ECS is move assignable");
        mark("stop");
    }
    // ---- ids ----
    void iid(W &w) {
        observe("iid", w.GetInstanceId());
        mark("stop");
    }
    void make_w() {
        W i;
        mark("made");
        observe("iid", i);
        mark("stop");
    }
    void make_w2() {
        W2 i;
        mark("made");
        observe("iid", i);
        mark("stop");
    }
#ifndef TECS_HEADER_ONLY
    void tid_w(W &w) {
        auto l = w.StartTransaction<Read<A>>();
        observe("tid", l.GetTransactionId());
        mark("stop");
    }
    void tid_ar(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        observe("tid", l.GetTransactionId());
        mark("stop");
    }
    void tid_w2(W2 &x) {
        auto l = x.StartTransaction<Write<A>>();
        observe("tid", l.GetTransactionId());
        mark("stop");
    }
    void tid_life(W &w) {
        auto l = w.StartTransaction<Write<A>, Read<B>>();
        observe("tid", l.GetTransactionId());
        auto m = l.Subset<Read<A>>();
        observe("same", m.GetTransactionId());
        observe("same", l.ReadOnlySubset().GetTransactionId());
        DynamicLock<W, Read<A>> d(l);
        observe("same", d.GetTransactionId());
        auto t = d.TryLock<Write<A>>();
        if (t) observe("same", t->GetTransactionId());
        observe("same", l.GetTransactionId());
        mark("stop");
    }
#endif
    // ---- observers ----

    void watch_0(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        auto o = l.Watch<EntityEvent>();
        observe("watched", o, o.operator bool());
        mark("done");
        mark("stop");
    }
    void stop_0(W &w, Observer<W, EntityEvent> &ob) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        l.StopWatching(ob);
        mark("done");
        observe("after", ob.operator bool());
        mark("stop");
    }
    void stop2_0(W &w, Observer<W, EntityEvent> &ob) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        ob.Stop(l);
        mark("done");
        observe("after", ob.operator bool());
        mark("stop");
    }
    void poll_0(W &w, Observer<W, EntityEvent> &ob, EntityEvent &event) {
        auto l = w.StartTransaction<>();
        mark("begin");
        bool r = ob.Poll(l, event);
        observe("polled", r);
        mark("done");
        mark("stop");
    }
    void valid_0(W &w, Observer<W, EntityEvent> &ob) {
        bool r = ob;
        observe("valid", r);
        mark("stop");
    }
    void null_0(W &w) {
        Observer<W, EntityEvent> o;
        bool r = o;
        observe("valid", r);
        mark("stop");
    }

    void watch_1(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        auto o = l.Watch<ComponentEvent<A>>();
        observe("watched", o, o.operator bool());
        mark("done");
        mark("stop");
    }
    void stop_1(W &w, Observer<W, ComponentEvent<A>> &ob) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        l.StopWatching(ob);
        mark("done");
        observe("after", ob.operator bool());
        mark("stop");
    }
    void stop2_1(W &w, Observer<W, ComponentEvent<A>> &ob) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        ob.Stop(l);
        mark("done");
        observe("after", ob.operator bool());
        mark("stop");
    }
    void poll_1(W &w, Observer<W, ComponentEvent<A>> &ob, ComponentEvent<A> &event) {
        auto l = w.StartTransaction<>();
        mark("begin");
        bool r = ob.Poll(l, event);
        observe("polled", r);
        mark("done");
        mark("stop");
    }
    void valid_1(W &w, Observer<W, ComponentEvent<A>> &ob) {
        bool r = ob;
        observe("valid", r);
        mark("stop");
    }
    void null_1(W &w) {
        Observer<W, ComponentEvent<A>> o;
        bool r = o;
        observe("valid", r);
        mark("stop");
    }

    void watch_2(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        auto o = l.Watch<ComponentEvent<B>>();
        observe("watched", o, o.operator bool());
        mark("done");
        mark("stop");
    }
    void stop_2(W &w, Observer<W, ComponentEvent<B>> &ob) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        l.StopWatching(ob);
        mark("done");
        observe("after", ob.operator bool());
        mark("stop");
    }
    void stop2_2(W &w, Observer<W, ComponentEvent<B>> &ob) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        ob.Stop(l);
        mark("done");
        observe("after", ob.operator bool());
        mark("stop");
    }
    void poll_2(W &w, Observer<W, ComponentEvent<B>> &ob, ComponentEvent<B> &event) {
        auto l = w.StartTransaction<>();
        mark("begin");
        bool r = ob.Poll(l, event);
        observe("polled", r);
        mark("done");
        mark("stop");
    }
    void valid_2(W &w, Observer<W, ComponentEvent<B>> &ob) {
        bool r = ob;
        observe("valid", r);
        mark("stop");
    }
    void null_2(W &w) {
        Observer<W, ComponentEvent<B>> o;
        bool r = o;
        observe("valid", r);
        mark("stop");
    }

    void watch_3(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        auto o = l.Watch<ComponentEvent<G>>();
        observe("watched", o, o.operator bool());
        mark("done");
        mark("stop");
    }
    void stop_3(W &w, Observer<W, ComponentEvent<G>> &ob) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        l.StopWatching(ob);
        mark("done");
        observe("after", ob.operator bool());
        mark("stop");
    }
    void stop2_3(W &w, Observer<W, ComponentEvent<G>> &ob) {
        auto l = w.StartTransaction<AddRemove>();
        mark("begin");
        ob.Stop(l);
        mark("done");
        observe("after", ob.operator bool());
        mark("stop");
    }
    void poll_3(W &w, Observer<W, ComponentEvent<G>> &ob, ComponentEvent<G> &event) {
        auto l = w.StartTransaction<>();
        mark("begin");
        bool r = ob.Poll(l, event);
        observe("polled", r);
        mark("done");
        mark("stop");
    }
    void valid_3(W &w, Observer<W, ComponentEvent<G>> &ob) {
        bool r = ob;
        observe("valid", r);
        mark("stop");
    }
    void null_3(W &w) {
        Observer<W, ComponentEvent<G>> o;
        bool r = o;
        observe("valid", r);
        mark("stop");
    }

} // namespace vf
