// Generated by tools/gen_ops.py: every operation through every kind of lock.
#include "common.hh"
#include <type_traits>
namespace vf {
    void op_exists__none(W &w, const Entity &e) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { observe("result", (bool)e.Exists(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_exists__rA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { observe("result", (bool)e.Exists(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_exists__rall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { observe("result", (bool)e.Exists(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_exists__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { observe("result", (bool)e.Exists(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_exists__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)e.Exists(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_exists__s_wA_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Exists(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_exists__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Exists(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_exists__s_ar_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Exists(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_exists__s_ar_none(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Exists(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_exists__v_ar(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Exists(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_exists__v_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Exists(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_existed__none(W &w, const Entity &e) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { observe("result", (bool)e.Existed(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_existed__rA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { observe("result", (bool)e.Existed(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_existed__rall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { observe("result", (bool)e.Existed(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_existed__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { observe("result", (bool)e.Existed(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_existed__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)e.Existed(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_existed__s_wA_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Existed(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_existed__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Existed(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_existed__s_ar_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Existed(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_existed__s_ar_none(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Existed(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_existed__v_ar(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Existed(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_existed__v_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Existed(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasA__none(W &w, const Entity &e) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { observe("result", (bool)e.Has<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasA__rA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { observe("result", (bool)e.Has<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasA__rall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { observe("result", (bool)e.Has<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasA__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { observe("result", (bool)e.Has<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasA__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)e.Has<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasA__s_wA_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasA__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasA__s_ar_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasA__s_ar_none(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasA__v_ar(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Has<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasA__v_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Has<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasAB__none(W &w, const Entity &e) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { observe("result", (bool)e.Has<A, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasAB__rA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { observe("result", (bool)e.Has<A, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasAB__rall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { observe("result", (bool)e.Has<A, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasAB__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { observe("result", (bool)e.Has<A, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasAB__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)e.Has<A, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasAB__s_wA_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<A, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasAB__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<A, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasAB__s_ar_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<A, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasAB__s_ar_none(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<A, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasAB__v_ar(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Has<A, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasAB__v_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Has<A, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasnone__none(W &w, const Entity &e) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { observe("result", (bool)e.Has<>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasnone__rA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { observe("result", (bool)e.Has<>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasnone__rall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { observe("result", (bool)e.Has<>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasnone__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { observe("result", (bool)e.Has<>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasnone__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)e.Has<>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasnone__s_wA_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasnone__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasnone__s_ar_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasnone__s_ar_none(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasnone__v_ar(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Has<>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasnone__v_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Has<>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadA__none(W &w, const Entity &e) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { observe("result", (bool)e.Had<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadA__rA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { observe("result", (bool)e.Had<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadA__rall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { observe("result", (bool)e.Had<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadA__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { observe("result", (bool)e.Had<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadA__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)e.Had<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadA__s_wA_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Had<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadA__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Had<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadA__s_ar_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Had<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadA__s_ar_none(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Had<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadA__v_ar(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Had<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadA__v_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Had<A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadBA__none(W &w, const Entity &e) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { observe("result", (bool)e.Had<B, A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadBA__rA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { observe("result", (bool)e.Had<B, A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadBA__rall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { observe("result", (bool)e.Had<B, A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadBA__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { observe("result", (bool)e.Had<B, A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadBA__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)e.Had<B, A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadBA__s_wA_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Had<B, A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadBA__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Had<B, A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadBA__s_ar_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Had<B, A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadBA__s_ar_none(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Had<B, A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadBA__v_ar(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Had<B, A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadBA__v_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)e.Had<B, A>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__rA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__rall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__wBrA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<B>, Read<A>>();
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__wall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__nest(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Lock<W, Write<A>>, Read<B>>();
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__s_wA_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__s_ar_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__s_ar_wall(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__v_ar(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getc__v_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = e.Get<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getm__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getm__wall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getm__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getm__nest(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Lock<W, Write<A>>, Read<B>>();
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getm__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getm__s_ar_wall(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getr__rA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getr__rall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getr__wBrA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<B>, Read<A>>();
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getr__s_wA_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getr__s_ar_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getr__v_ar(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getr__v_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = e.Get<A>(lock); static_assert(std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__rA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__rall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__wBrA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<B>, Read<A>>();
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__wall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__nest(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Lock<W, Write<A>>, Read<B>>();
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__s_wA_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__s_ar_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__s_ar_wall(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__v_ar(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prev__v_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = e.GetPrevious<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__rA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__rall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__wBrA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<B>, Read<A>>();
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__wall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__nest(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Lock<W, Write<A>>, Read<B>>();
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__s_wA_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__s_ar_rA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__s_ar_wall(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__v_ar(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevc__v_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = e.GetPrevious<const A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setref__wA(W &w, const Entity &e, A &val) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { auto &r = e.Set<A>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setref__wall(W &w, const Entity &e, A &val) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = e.Set<A>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setref__ar(W &w, const Entity &e, A &val) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.Set<A>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setref__nest(W &w, const Entity &e, A &val) {
        auto lock = w.StartTransaction<Lock<W, Write<A>>, Read<B>>();
        mark("begin");
        try { auto &r = e.Set<A>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setref__s_ar_wA(W &w, const Entity &e, A &val) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { auto &r = e.Set<A>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setref__s_ar_wall(W &w, const Entity &e, A &val) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = e.Set<A>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setarg__wA(W &w, const Entity &e, A &val) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { auto &r = e.Set<A>(lock, A(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setarg__wall(W &w, const Entity &e, A &val) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = e.Set<A>(lock, A(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setarg__ar(W &w, const Entity &e, A &val) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.Set<A>(lock, A(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setarg__nest(W &w, const Entity &e, A &val) {
        auto lock = w.StartTransaction<Lock<W, Write<A>>, Read<B>>();
        mark("begin");
        try { auto &r = e.Set<A>(lock, A(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setarg__s_ar_wA(W &w, const Entity &e, A &val) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { auto &r = e.Set<A>(lock, A(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setarg__s_ar_wall(W &w, const Entity &e, A &val) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = e.Set<A>(lock, A(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setdef__wA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { auto &r = e.Set<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setdef__wall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = e.Set<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setdef__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.Set<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setdef__nest(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Lock<W, Write<A>>, Read<B>>();
        mark("begin");
        try { auto &r = e.Set<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setdef__s_ar_wA(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { auto &r = e.Set<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setdef__s_ar_wall(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = e.Set<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setB__wBrA(W &w, const Entity &e, B &val) {
        auto lock = w.StartTransaction<Write<B>, Read<A>>();
        mark("begin");
        try { auto &r = e.Set<B>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setB__wall(W &w, const Entity &e, B &val) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = e.Set<B>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setB__ar(W &w, const Entity &e, B &val) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.Set<B>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setB__s_ar_wall(W &w, const Entity &e, B &val) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = e.Set<B>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getB__wBrA(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<B>, Read<A>>();
        mark("begin");
        try { auto &r = e.Get<B>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getB__wall(W &w, const Entity &e) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = e.Get<B>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getB__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.Get<B>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getB__s_ar_wall(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = e.Get<B>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_unsetA__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { e.Unset<A>(lock); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_unsetBA__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { e.Unset<B, A>(lock); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_unsetAB_eA__ar(W &w, const Entity &eA) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { eA.Unset<A, B>(lock); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_unsetBA_eB__ar(W &w, const Entity &eB) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { eB.Unset<B, A>(lock); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_unsetAB_eM__ar(W &w, const Entity &eM) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { eM.Unset<A, B>(lock); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_destroy__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { e.Destroy(lock); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_destroym__ar(W &w, Entity &em) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { em.Destroy(lock); observe("handle", em); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_destroy_eA__ar(W &w, const Entity &eA) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { eA.Destroy(lock); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_destroy_eB__ar(W &w, const Entity &eB) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { eB.Destroy(lock); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_destroy_eM__ar(W &w, const Entity &eM) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { eM.Destroy(lock); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setA_eM__ar(W &w, const Entity &eM, A &val) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = eM.Set<A>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setA_eB__ar(W &w, const Entity &eB, A &val) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = eB.Set<A>(lock, A(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getA_eM__ar(W &w, const Entity &eM) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = eM.Get<A>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_new__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { Entity n = lock.NewEntity(); observe("new", n); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entities__none(W &w) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { auto v = lock.Entities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entities__rA(W &w) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { auto v = lock.Entities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entities__rall(W &w) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { auto v = lock.Entities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entities__wA(W &w) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { auto v = lock.Entities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entities__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto v = lock.Entities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entities__s_wA_rA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto v = lock.Entities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entities__s_ar_wA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { auto v = lock.Entities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entities__s_ar_rA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto v = lock.Entities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entities__s_ar_none(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { auto v = lock.Entities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entities__v_ar(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto v = lock.Entities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entities__v_wA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto v = lock.Entities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentities__none(W &w) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { auto v = lock.PreviousEntities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentities__rA(W &w) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { auto v = lock.PreviousEntities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentities__rall(W &w) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { auto v = lock.PreviousEntities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentities__wA(W &w) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { auto v = lock.PreviousEntities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentities__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto v = lock.PreviousEntities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentities__s_wA_rA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto v = lock.PreviousEntities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentities__s_ar_wA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { auto v = lock.PreviousEntities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentities__s_ar_rA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto v = lock.PreviousEntities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentities__s_ar_none(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { auto v = lock.PreviousEntities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentities__v_ar(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto v = lock.PreviousEntities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentities__v_wA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto v = lock.PreviousEntities(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesA__none(W &w) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { auto v = lock.template EntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesA__rA(W &w) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { auto v = lock.template EntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesA__rall(W &w) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { auto v = lock.template EntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesA__wA(W &w) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { auto v = lock.template EntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesA__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto v = lock.template EntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesA__s_wA_rA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto v = lock.template EntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesA__s_ar_wA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { auto v = lock.template EntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesA__s_ar_rA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto v = lock.template EntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesA__s_ar_none(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { auto v = lock.template EntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesA__v_ar(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto v = lock.template EntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesA__v_wA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto v = lock.template EntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentitiesA__none(W &w) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentitiesA__rA(W &w) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentitiesA__rall(W &w) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentitiesA__wA(W &w) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentitiesA__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentitiesA__s_wA_rA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentitiesA__s_ar_wA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentitiesA__s_ar_rA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentitiesA__s_ar_none(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentitiesA__v_ar(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_pentitiesA__v_wA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto v = lock.template PreviousEntitiesWith<A>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__none(W &w) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__rA(W &w) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__rall(W &w) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__wA(W &w) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__s_wA_rA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__s_ar_wA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__s_ar_rA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__s_ar_none(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__v_ar(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__v_wA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__rG(W &w) {
        auto lock = w.StartTransaction<Read<G>>();
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__wG(W &w) {
        auto lock = w.StartTransaction<Write<G>>();
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__wGA(W &w) {
        auto lock = w.StartTransaction<Write<G, A>>();
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__s_ar_wG(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<G>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__s_ar_rG(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<G>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__s_wG_rG(W &w) {
        auto l0 = w.StartTransaction<Write<G>>(); Lock<W, Read<G>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghas__v_wG(W &w) {
        auto l0 = w.StartTransaction<Write<G>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)lock.template Has<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__none(W &w) {
        auto lock = w.StartTransaction<>();
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__rA(W &w) {
        auto lock = w.StartTransaction<Read<A>>();
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__rall(W &w) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__wA(W &w) {
        auto lock = w.StartTransaction<Write<A>>();
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__s_wA_rA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__s_ar_wA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__s_ar_rA(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<A>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__s_ar_none(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__v_ar(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__v_wA(W &w) {
        auto l0 = w.StartTransaction<Write<A>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__rG(W &w) {
        auto lock = w.StartTransaction<Read<G>>();
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__wG(W &w) {
        auto lock = w.StartTransaction<Write<G>>();
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__wGA(W &w) {
        auto lock = w.StartTransaction<Write<G, A>>();
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__s_ar_wG(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<G>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__s_ar_rG(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<G>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__s_wG_rG(W &w) {
        auto l0 = w.StartTransaction<Write<G>>(); Lock<W, Read<G>> lock = l0;
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ghad__v_wG(W &w) {
        auto l0 = w.StartTransaction<Write<G>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { observe("result", (bool)lock.template Had<G>()); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__rall(W &w) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__wall(W &w) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__s_ar_wall(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__v_ar(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__rG(W &w) {
        auto lock = w.StartTransaction<Read<G>>();
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__wG(W &w) {
        auto lock = w.StartTransaction<Write<G>>();
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__wGA(W &w) {
        auto lock = w.StartTransaction<Write<G, A>>();
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__s_ar_wG(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__s_ar_rG(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__s_wG_rG(W &w) {
        auto l0 = w.StartTransaction<Write<G>>(); Lock<W, Read<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetc__v_wG(W &w) {
        auto l0 = w.StartTransaction<Write<G>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = lock.template Get<const G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetm__wall(W &w) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = lock.template Get<G>(); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetm__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = lock.template Get<G>(); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetm__s_ar_wall(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = lock.template Get<G>(); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetm__wG(W &w) {
        auto lock = w.StartTransaction<Write<G>>();
        mark("begin");
        try { auto &r = lock.template Get<G>(); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetm__wGA(W &w) {
        auto lock = w.StartTransaction<Write<G, A>>();
        mark("begin");
        try { auto &r = lock.template Get<G>(); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetm__s_ar_wG(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template Get<G>(); static_assert(!std::is_const_v<std::remove_reference_t<decltype(r)>>); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetr__rall(W &w) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { auto &r = lock.template Get<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetr__v_ar(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = lock.template Get<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetr__rG(W &w) {
        auto lock = w.StartTransaction<Read<G>>();
        mark("begin");
        try { auto &r = lock.template Get<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetr__s_ar_rG(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template Get<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetr__s_wG_rG(W &w) {
        auto l0 = w.StartTransaction<Write<G>>(); Lock<W, Read<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template Get<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_ggetr__v_wG(W &w) {
        auto l0 = w.StartTransaction<Write<G>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = lock.template Get<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__rall(W &w) {
        auto lock = w.StartTransaction<ReadAll>();
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__wall(W &w) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__s_ar_wall(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__v_ar(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__rG(W &w) {
        auto lock = w.StartTransaction<Read<G>>();
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__wG(W &w) {
        auto lock = w.StartTransaction<Write<G>>();
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__wGA(W &w) {
        auto lock = w.StartTransaction<Write<G, A>>();
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__s_ar_wG(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__s_ar_rG(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Read<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__s_wG_rG(W &w) {
        auto l0 = w.StartTransaction<Write<G>>(); Lock<W, Read<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gprev__v_wG(W &w) {
        auto l0 = w.StartTransaction<Write<G>>(); auto lock = l0.ReadOnlySubset();
        mark("begin");
        try { auto &r = lock.template GetPrevious<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetref__wall(W &w, G &val) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = lock.template Set<G>(val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetref__ar(W &w, G &val) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = lock.template Set<G>(val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetref__s_ar_wall(W &w, G &val) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = lock.template Set<G>(val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetref__wG(W &w, G &val) {
        auto lock = w.StartTransaction<Write<G>>();
        mark("begin");
        try { auto &r = lock.template Set<G>(val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetref__wGA(W &w, G &val) {
        auto lock = w.StartTransaction<Write<G, A>>();
        mark("begin");
        try { auto &r = lock.template Set<G>(val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetref__s_ar_wG(W &w, G &val) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template Set<G>(val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetarg__wall(W &w, G &val) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = lock.template Set<G>(G(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetarg__ar(W &w, G &val) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = lock.template Set<G>(G(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetarg__s_ar_wall(W &w, G &val) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = lock.template Set<G>(G(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetarg__wG(W &w, G &val) {
        auto lock = w.StartTransaction<Write<G>>();
        mark("begin");
        try { auto &r = lock.template Set<G>(G(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetarg__wGA(W &w, G &val) {
        auto lock = w.StartTransaction<Write<G, A>>();
        mark("begin");
        try { auto &r = lock.template Set<G>(G(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetarg__s_ar_wG(W &w, G &val) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template Set<G>(G(val)); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetdef__wall(W &w) {
        auto lock = w.StartTransaction<WriteAll>();
        mark("begin");
        try { auto &r = lock.template Set<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetdef__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = lock.template Set<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetdef__s_ar_wall(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, WriteAll> lock = l0;
        mark("begin");
        try { auto &r = lock.template Set<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetdef__wG(W &w) {
        auto lock = w.StartTransaction<Write<G>>();
        mark("begin");
        try { auto &r = lock.template Set<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetdef__wGA(W &w) {
        auto lock = w.StartTransaction<Write<G, A>>();
        mark("begin");
        try { auto &r = lock.template Set<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gsetdef__s_ar_wG(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<G>> lock = l0;
        mark("begin");
        try { auto &r = lock.template Set<G>(); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_gunset__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { lock.template Unset<G>(); } catch (...) { mark("threw"); }
        mark("stop");
    }
#ifdef VF_WIDE
    void op_hasC__rC(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<C>>();
        mark("begin");
        try { observe("result", (bool)e.Has<C>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasC__wCrB(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<C>, Read<B>>();
        mark("begin");
        try { observe("result", (bool)e.Has<C>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasC__s_ar_wC(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<C>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<C>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasC__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)e.Has<C>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasCB__rC(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<C>>();
        mark("begin");
        try { observe("result", (bool)e.Has<C, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasCB__wCrB(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<C>, Read<B>>();
        mark("begin");
        try { observe("result", (bool)e.Has<C, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasCB__s_ar_wC(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<C>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Has<C, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hasCB__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)e.Has<C, B>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadC__rC(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<C>>();
        mark("begin");
        try { observe("result", (bool)e.Had<C>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadC__wCrB(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<C>, Read<B>>();
        mark("begin");
        try { observe("result", (bool)e.Had<C>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadC__s_ar_wC(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<C>> lock = l0;
        mark("begin");
        try { observe("result", (bool)e.Had<C>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_hadC__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { observe("result", (bool)e.Had<C>(lock)); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getcC__rC(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<C>>();
        mark("begin");
        try { auto &r = e.Get<const C>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getcC__wCrB(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<C>, Read<B>>();
        mark("begin");
        try { auto &r = e.Get<const C>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getcC__s_ar_wC(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<C>> lock = l0;
        mark("begin");
        try { auto &r = e.Get<const C>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getcC__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.Get<const C>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevC__rC(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Read<C>>();
        mark("begin");
        try { auto &r = e.GetPrevious<C>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevC__wCrB(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<C>, Read<B>>();
        mark("begin");
        try { auto &r = e.GetPrevious<C>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevC__s_ar_wC(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<C>> lock = l0;
        mark("begin");
        try { auto &r = e.GetPrevious<C>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_prevC__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.GetPrevious<C>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getC__wCrB(W &w, const Entity &e) {
        auto lock = w.StartTransaction<Write<C>, Read<B>>();
        mark("begin");
        try { auto &r = e.Get<C>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getC__s_ar_wC(W &w, const Entity &e) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<C>> lock = l0;
        mark("begin");
        try { auto &r = e.Get<C>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_getC__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.Get<C>(lock); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setC__wCrB(W &w, const Entity &e, C &val) {
        auto lock = w.StartTransaction<Write<C>, Read<B>>();
        mark("begin");
        try { auto &r = e.Set<C>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setC__s_ar_wC(W &w, const Entity &e, C &val) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<C>> lock = l0;
        mark("begin");
        try { auto &r = e.Set<C>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_setC__ar(W &w, const Entity &e, C &val) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto &r = e.Set<C>(lock, val); observe("result", r); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_unsetC__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { e.Unset<C>(lock); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_unsetCA__ar(W &w, const Entity &e) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { e.Unset<C, A>(lock); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesC__rC(W &w) {
        auto lock = w.StartTransaction<Read<C>>();
        mark("begin");
        try { auto v = lock.template EntitiesWith<C>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesC__wCrB(W &w) {
        auto lock = w.StartTransaction<Write<C>, Read<B>>();
        mark("begin");
        try { auto v = lock.template EntitiesWith<C>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesC__s_ar_wC(W &w) {
        auto l0 = w.StartTransaction<AddRemove>(); Lock<W, Write<C>> lock = l0;
        mark("begin");
        try { auto v = lock.template EntitiesWith<C>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
    void op_entitiesC__ar(W &w) {
        auto lock = w.StartTransaction<AddRemove>();
        mark("begin");
        try { auto v = lock.template EntitiesWith<C>(); observe("view", v); } catch (...) { mark("threw"); }
        mark("stop");
    }
#endif
    void op_defaults() {
        A a{};
        B b{};
        G g{};
#ifdef VF_WIDE
        C c{};
        observe("defaults", a, b, g, c);
#else
        observe("defaults", a, b, g);
#endif
        mark("stop");
    }
} // namespace vf
