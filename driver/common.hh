// Component types used by all drivers: two ordinary (entity) components and a global one.
#pragma once
#include <Tecs.hh>

namespace vf {
#ifndef VF_ALT
    struct A {
        int v;
    };
    struct B {
        int v;
    };
    struct G {
        int v;
    };
#else // components of other kinds: not trivial, without data
    struct A {
        int v;
        A() : v(3) {}
        A(int v) : v(v) {}
        ~A() {}
    };
    struct B {};
    struct G {
        int v;
        G() : v(10) {}
        G(int v) : v(v) {}
        ~G() {}
    };
#endif
} // namespace vf
TECS_GLOBAL_COMPONENT(vf::G);
#ifdef VF_WIDE // one more entity component type
namespace vf {
    struct C {
        int v;
    };
} // namespace vf
#endif

namespace vf {
    using namespace Tecs;
#ifdef VF_WIDE
    using W = ECS<A, B, G, C>;
#else
    using W = ECS<A, B, G>;
#endif
    // Undefined: calls are recorded as events by the analysis.
    void mark(const char *);
    template<typename... T>
    void observe(const char *, const T &...);
    bool unknown();
} // namespace vf
