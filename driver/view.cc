// C27: entity views. Interpreted by checks/view.py, never run.
#include "common.hh"

namespace vf {
    typedef std::vector<Entity> List;

    void ctor_window(const List &s, size_t start, size_t end) {
        mark("begin");
        EntityView v(s, start, end);
        mark("built");
        observe("size", v.size(), v.empty());
        observe("ends", v.begin() == v.end(), v.begin() != v.end(), v.rbegin() == v.rend(), v.rbegin() != v.rend());
        mark("stop");
    }
    void ctor_list(const List &s) {
        EntityView v(s);
        mark("built");
        observe("size", v.size(), v.empty());
        observe("ends", v.begin() == v.end(), v.begin() != v.end(), v.rbegin() == v.rend(), v.rbegin() != v.rend());
        mark("stop");
    }
    void ctor_none() {
        EntityView v;
        mark("built");
        observe("size", v.size(), v.empty());
        observe("ends", v.begin() == v.end(), v.begin() != v.end(), v.rbegin() == v.rend(), v.rbegin() != v.rend());
        mark("stop");
    }
    void visit_list(const List &s) {
        EntityView v(s);
        mark("built");
        for (const Entity &e : v) observe("visit", e);
        mark("stop");
    }
    void visit_list_back(const List &s) {
        EntityView v(s);
        mark("built");
        for (auto it = v.rbegin(); it != v.rend(); ++it) observe("visit", *it);
        mark("stop");
    }
    void visit_window(const List &s, size_t start, size_t end) {
        mark("begin");
        EntityView v(s, start, end);
        mark("built");
        for (const Entity &e : v) observe("visit", e);
        mark("stop");
    }
    void visit_window_back(const List &s, size_t start, size_t end) {
        mark("begin");
        EntityView v(s, start, end);
        mark("built");
        for (auto it = v.rbegin(); it != v.rend(); ++it) observe("visit", *it);
        mark("stop");
    }
    void visit_window_post(const List &s, size_t start, size_t end) {
        mark("begin");
        EntityView v(s, start, end);
        mark("built");
        for (auto it = v.begin(); !(it == v.end()); it++) observe("visit", *it);
        mark("stop");
    }
    void visit_window_down(const List &s, size_t start, size_t end) {
        mark("begin");
        EntityView v(s, start, end);
        mark("built");
        for (auto it = v.end(); it != v.begin();) {
            --it;
            observe("visit", *it);
        }
        mark("stop");
    }
    void visit_window_copy(const List &s, size_t start, size_t end) {
        mark("begin");
        EntityView u(s, start, end);
        EntityView v(u);
        mark("built");
        for (const Entity &e : v) observe("visit", e);
        mark("stop");
    }
    void at_index(const List &s, size_t start, size_t end, size_t k) {
        mark("begin");
        EntityView v(s, start, end);
        mark("built");
        observe("at", v[k]);
        mark("stop");
    }
#define AT(name, ...)                                                                \
    void at_##name(const List &s, size_t start, size_t end, std::ptrdiff_t k) {       \
        mark("begin");                                                               \
        EntityView v(s, start, end);                                                 \
        mark("built");                                                               \
        __VA_ARGS__                                                                  \
        mark("stop");                                                                \
    }
    AT(plus, auto it = v.begin() + k; observe("at", *it);)
    AT(arrow, auto it = v.begin() + k; observe("at", it->index);)
    AT(subscript, auto it = v.begin(); observe("at", it[k]);)
    AT(minus, auto it = v.end() - k; observe("at", *it);)
    AT(plus_assign, auto it = v.begin(); it += k; observe("at", *it);)
    AT(minus_assign, auto it = v.end(); it -= k; observe("at", *it);)
    AT(plus_assign_result, auto it = v.begin(); auto r = it += k; observe("at", *r);)
    AT(minus_assign_result, auto it = v.end(); auto r = it -= k; observe("at", *r);)
    AT(inc, auto it = v.begin() + k; ++it; observe("at", *it);)
    AT(inc_result, auto it = v.begin() + k; auto r = ++it; observe("at", *r);)
    AT(inc_post, auto it = v.begin() + k; it++; observe("at", *it);)
    AT(inc_post_result, auto it = v.begin() + k; auto r = it++; observe("at", *r);)
    AT(dec, auto it = v.begin() + k; --it; observe("at", *it);)
    AT(dec_result, auto it = v.begin() + k; auto r = --it; observe("at", *r);)
    AT(dec_post, auto it = v.begin() + k; it--; observe("at", *it);)
    AT(dec_post_result, auto it = v.begin() + k; auto r = it--; observe("at", *r);)
    AT(plus_pure, auto it = v.begin() + k; it + 1; it - 1; observe("at", *it);)
    AT(reverse, auto it = v.rbegin() + k; observe("at", *it);)
    AT(reverse_base, auto it = v.rend() - k; observe("at", *it);)
    void same(const List &s, size_t start, size_t end, std::ptrdiff_t j, std::ptrdiff_t k) {
        mark("begin");
        EntityView v(s, start, end);
        mark("built");
        auto a = v.begin() + j;
        auto b = v.begin() + k;
        observe("same", a == b, a != b);
        mark("stop");
    }
    void same_views(const List &s, size_t start, size_t end, std::ptrdiff_t j, std::ptrdiff_t k) {
        mark("begin");
        EntityView v(s, start, end), w(s, start, end);
        mark("built");
        auto a = v.begin() + j;
        auto b = w.begin() + k;
        observe("same", a == b, a != b);
        mark("stop");
    }
    void sub_rest(const List &s, size_t start, size_t end, size_t offset) {
        mark("begin");
        EntityView v(s, start, end);
        mark("built");
        EntityView u = v.subview(offset);
        mark("sub");
        observe("size", u.size(), u.empty());
        for (const Entity &e : u) observe("visit", e);
        mark("stop");
    }
    void sub_count(const List &s, size_t start, size_t end, size_t offset, size_t count) {
        mark("begin");
        EntityView v(s, start, end);
        mark("built");
        EntityView u = v.subview(offset, count);
        mark("sub");
        observe("size", u.size(), u.empty());
        for (const Entity &e : u) observe("visit", e);
        mark("stop");
    }
    void sub_list(const List &s, size_t offset) {
        EntityView v(s);
        mark("built");
        EntityView u = v.subview(offset);
        mark("sub");
        observe("size", u.size(), u.empty());
        for (const Entity &e : u) observe("visit", e);
        mark("stop");
    }
    void sub_none(size_t offset, size_t count) {
        EntityView v;
        mark("built");
        EntityView u = v.subview(offset, count);
        mark("sub");
        observe("size", u.size(), u.empty());
        mark("stop");
    }
} // namespace vf
