// Generated by tools/gen_life.py: sequences of starting and ending transactions on one thread (C25). Interpreted by checks/life.py.
#include "common.hh"
#include <Tecs.cc>

namespace vf {
    using L = Lock<W, Read<A>>;
    void nest_any(W &w) {
        try {
            auto l = w.StartTransaction<Read<A>>();
            mark("started");
            mark("havoc");
        } catch (const std::exception &) {
            mark("refused");
            mark("stop");
        }
        mark("ended");
        mark("stop");
    }
    void nest_ar(W &w) {
        try {
            auto l = w.StartTransaction<AddRemove>();
            mark("started");
            mark("havoc");
        } catch (const std::exception &) {
            mark("refused");
            mark("stop");
        }
        mark("ended");
        mark("stop");
    }

    void seq_0(W &w, W &x, W &y) { // +w +w +x +y -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_1(W &w, W &x, W &y, W &z) { // +w +w +x +y -w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_2(W &w, W &x, W &y) { // +w +w +x +y -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_3(W &w, W &x, W &y) { // +w +w +x +y -w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_4(W &w, W &x, W &y) { // +w +w +x +y -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_5(W &w, W &x, W &y, W &z) { // +w +w +x +y -x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_6(W &w, W &x, W &y) { // +w +w +x +y -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_7(W &w, W &x, W &y) { // +w +w +x +y -x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_8(W &w, W &x, W &y) { // +w +w +x +y -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_9(W &w, W &x, W &y, W &z) { // +w +w +x +y -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_10(W &w, W &x, W &y) { // +w +w +x +y -y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_11(W &w, W &x, W &y) { // +w +w +x +y -y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_12(W &w, W &x, W &y) { // +w +w +x -w +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_13(W &w, W &x) { // +w +w +x -w +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_14(W &w, W &x) { // +w +w +x -w +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_15(W &w, W &x, W &y) { // +w +w +x -w +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_16(W &w, W &x, W &y, W &z) { // +w +w +x -w +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_17(W &w, W &x, W &y) { // +w +w +x -w +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_18(W &w, W &x, W &y) { // +w +w +x -w +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_19(W &w, W &x) { // +w +w +x -w -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_20(W &w, W &x) { // +w +w +x -w -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_21(W &w, W &x, W &y) { // +w +w +x -w -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_22(W &w, W &x, W &y) { // +w +w +x -x +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_23(W &w, W &x) { // +w +w +x -x +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_24(W &w, W &x) { // +w +w +x -x +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_25(W &w, W &x, W &y) { // +w +w +x -x +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_26(W &w, W &x, W &y, W &z) { // +w +w +x -x +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_27(W &w, W &x, W &y) { // +w +w +x -x +y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_28(W &w, W &x, W &y) { // +w +w +x -x +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_29(W &w, W &x) { // +w +w +x -x -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_30(W &w, W &x) { // +w +w +x -x -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_31(W &w, W &x, W &y) { // +w +w +x -x -w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_32(W &w, W &x, W &y) { // +w +w -w +w +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_33(W &w, W &x) { // +w +w -w +w +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_34(W &w, W &x) { // +w +w -w +w +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_35(W &w) { // +w +w -w +w -w +w
        L *lw = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_36(W &w, W &x) { // +w +w -w +w -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_37(W &w, W &x, W &y) { // +w +w -w +x +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_38(W &w, W &x) { // +w +w -w +x +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_39(W &w, W &x) { // +w +w -w +x +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_40(W &w, W &x, W &y) { // +w +w -w +x +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_41(W &w, W &x, W &y, W &z) { // +w +w -w +x +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_42(W &w, W &x, W &y) { // +w +w -w +x +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_43(W &w, W &x, W &y) { // +w +w -w +x +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_44(W &w, W &x) { // +w +w -w +x -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_45(W &w, W &x) { // +w +w -w +x -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_46(W &w, W &x, W &y) { // +w +w -w +x -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_47(W &w, W &x, W &y) { // +w +x +w +y -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_48(W &w, W &x, W &y, W &z) { // +w +x +w +y -w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_49(W &w, W &x, W &y) { // +w +x +w +y -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_50(W &w, W &x, W &y) { // +w +x +w +y -w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_51(W &w, W &x, W &y) { // +w +x +w +y -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_52(W &w, W &x, W &y, W &z) { // +w +x +w +y -x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_53(W &w, W &x, W &y) { // +w +x +w +y -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_54(W &w, W &x, W &y) { // +w +x +w +y -x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_55(W &w, W &x, W &y) { // +w +x +w +y -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_56(W &w, W &x, W &y, W &z) { // +w +x +w +y -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_57(W &w, W &x, W &y) { // +w +x +w +y -y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_58(W &w, W &x, W &y) { // +w +x +w +y -y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_59(W &w, W &x, W &y) { // +w +x +w -w +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_60(W &w, W &x) { // +w +x +w -w +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_61(W &w, W &x) { // +w +x +w -w +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_62(W &w, W &x, W &y) { // +w +x +w -w +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_63(W &w, W &x, W &y, W &z) { // +w +x +w -w +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_64(W &w, W &x, W &y) { // +w +x +w -w +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_65(W &w, W &x, W &y) { // +w +x +w -w +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_66(W &w, W &x) { // +w +x +w -w -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_67(W &w, W &x) { // +w +x +w -w -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_68(W &w, W &x, W &y) { // +w +x +w -w -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_69(W &w, W &x, W &y) { // +w +x +w -x +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_70(W &w, W &x) { // +w +x +w -x +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_71(W &w, W &x) { // +w +x +w -x +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_72(W &w, W &x, W &y) { // +w +x +w -x +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_73(W &w, W &x, W &y, W &z) { // +w +x +w -x +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_74(W &w, W &x, W &y) { // +w +x +w -x +y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_75(W &w, W &x, W &y) { // +w +x +w -x +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_76(W &w, W &x) { // +w +x +w -x -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_77(W &w, W &x) { // +w +x +w -x -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_78(W &w, W &x, W &y) { // +w +x +w -x -w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_79(W &w, W &x, W &y) { // +w +x +x +y -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_80(W &w, W &x, W &y, W &z) { // +w +x +x +y -w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_81(W &w, W &x, W &y) { // +w +x +x +y -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_82(W &w, W &x, W &y) { // +w +x +x +y -w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_83(W &w, W &x, W &y) { // +w +x +x +y -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_84(W &w, W &x, W &y, W &z) { // +w +x +x +y -x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_85(W &w, W &x, W &y) { // +w +x +x +y -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_86(W &w, W &x, W &y) { // +w +x +x +y -x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_87(W &w, W &x, W &y) { // +w +x +x +y -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_88(W &w, W &x, W &y, W &z) { // +w +x +x +y -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_89(W &w, W &x, W &y) { // +w +x +x +y -y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_90(W &w, W &x, W &y) { // +w +x +x +y -y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_91(W &w, W &x, W &y) { // +w +x +x -w +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_92(W &w, W &x) { // +w +x +x -w +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_93(W &w, W &x) { // +w +x +x -w +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_94(W &w, W &x, W &y) { // +w +x +x -w +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_95(W &w, W &x, W &y, W &z) { // +w +x +x -w +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_96(W &w, W &x, W &y) { // +w +x +x -w +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_97(W &w, W &x, W &y) { // +w +x +x -w +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_98(W &w, W &x) { // +w +x +x -w -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_99(W &w, W &x) { // +w +x +x -w -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_100(W &w, W &x, W &y) { // +w +x +x -w -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_101(W &w, W &x, W &y) { // +w +x +x -x +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_102(W &w, W &x) { // +w +x +x -x +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_103(W &w, W &x) { // +w +x +x -x +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_104(W &w, W &x, W &y) { // +w +x +x -x +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_105(W &w, W &x, W &y, W &z) { // +w +x +x -x +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_106(W &w, W &x, W &y) { // +w +x +x -x +y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_107(W &w, W &x, W &y) { // +w +x +x -x +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_108(W &w, W &x) { // +w +x +x -x -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_109(W &w, W &x) { // +w +x +x -x -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_110(W &w, W &x, W &y) { // +w +x +x -x -w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_111(W &w, W &x, W &y) { // +w +x +y +w -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_112(W &w, W &x, W &y, W &z) { // +w +x +y +w -w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_113(W &w, W &x, W &y) { // +w +x +y +w -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_114(W &w, W &x, W &y) { // +w +x +y +w -w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_115(W &w, W &x, W &y) { // +w +x +y +w -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_116(W &w, W &x, W &y, W &z) { // +w +x +y +w -x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_117(W &w, W &x, W &y) { // +w +x +y +w -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_118(W &w, W &x, W &y) { // +w +x +y +w -x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_119(W &w, W &x, W &y) { // +w +x +y +w -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_120(W &w, W &x, W &y, W &z) { // +w +x +y +w -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_121(W &w, W &x, W &y) { // +w +x +y +w -y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_122(W &w, W &x, W &y) { // +w +x +y +w -y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_123(W &w, W &x, W &y) { // +w +x +y +x -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_124(W &w, W &x, W &y, W &z) { // +w +x +y +x -w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_125(W &w, W &x, W &y) { // +w +x +y +x -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_126(W &w, W &x, W &y) { // +w +x +y +x -w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_127(W &w, W &x, W &y) { // +w +x +y +x -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_128(W &w, W &x, W &y, W &z) { // +w +x +y +x -x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_129(W &w, W &x, W &y) { // +w +x +y +x -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_130(W &w, W &x, W &y) { // +w +x +y +x -x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_131(W &w, W &x, W &y) { // +w +x +y +x -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_132(W &w, W &x, W &y, W &z) { // +w +x +y +x -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_133(W &w, W &x, W &y) { // +w +x +y +x -y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_134(W &w, W &x, W &y) { // +w +x +y +x -y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_135(W &w, W &x, W &y) { // +w +x +y +y -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_136(W &w, W &x, W &y, W &z) { // +w +x +y +y -w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_137(W &w, W &x, W &y) { // +w +x +y +y -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_138(W &w, W &x, W &y) { // +w +x +y +y -w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_139(W &w, W &x, W &y) { // +w +x +y +y -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_140(W &w, W &x, W &y, W &z) { // +w +x +y +y -x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_141(W &w, W &x, W &y) { // +w +x +y +y -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_142(W &w, W &x, W &y) { // +w +x +y +y -x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_143(W &w, W &x, W &y) { // +w +x +y +y -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_144(W &w, W &x, W &y, W &z) { // +w +x +y +y -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_145(W &w, W &x, W &y) { // +w +x +y +y -y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_146(W &w, W &x, W &y) { // +w +x +y +y -y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_147(W &w, W &x, W &y, W &z) { // +w +x +y +z -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_148(W &w, W &x, W &y, W &z) { // +w +x +y +z -w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_149(W &w, W &x, W &y, W &z) { // +w +x +y +z -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_150(W &w, W &x, W &y, W &z) { // +w +x +y +z -w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_151(W &w, W &x, W &y, W &z) { // +w +x +y +z -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_152(W &w, W &x, W &y, W &z) { // +w +x +y +z -x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_153(W &w, W &x, W &y, W &z) { // +w +x +y +z -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_154(W &w, W &x, W &y, W &z) { // +w +x +y +z -x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_155(W &w, W &x, W &y, W &z) { // +w +x +y +z -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_156(W &w, W &x, W &y, W &z) { // +w +x +y +z -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_157(W &w, W &x, W &y, W &z) { // +w +x +y +z -y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_158(W &w, W &x, W &y, W &z) { // +w +x +y +z -y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_159(W &w, W &x, W &y) { // +w +x +y -w +w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_160(W &w, W &x, W &y) { // +w +x +y -w +w +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_161(W &w, W &x, W &y) { // +w +x +y -w +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_162(W &w, W &x, W &y, W &z) { // +w +x +y -w +w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_163(W &w, W &x, W &y) { // +w +x +y -w +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_164(W &w, W &x, W &y) { // +w +x +y -w +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_165(W &w, W &x, W &y) { // +w +x +y -w +w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_166(W &w, W &x, W &y) { // +w +x +y -w +x +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_167(W &w, W &x, W &y, W &z) { // +w +x +y -w +x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_168(W &w, W &x, W &y) { // +w +x +y -w +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_169(W &w, W &x, W &y) { // +w +x +y -w +x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_170(W &w, W &x, W &y) { // +w +x +y -w +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_171(W &w, W &x, W &y, W &z) { // +w +x +y -w +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_172(W &w, W &x, W &y) { // +w +x +y -w +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_173(W &w, W &x, W &y) { // +w +x +y -w +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_174(W &w, W &x, W &y, W &z) { // +w +x +y -w +z +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_175(W &w, W &x, W &y, W &z) { // +w +x +y -w +z +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_176(W &w, W &x, W &y, W &z) { // +w +x +y -w +z +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_177(W &w, W &x, W &y, W &z) { // +w +x +y -w +z +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_178(W &w, W &x, W &y, W &z) { // +w +x +y -w +z -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_179(W &w, W &x, W &y, W &z) { // +w +x +y -w +z -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_180(W &w, W &x, W &y, W &z) { // +w +x +y -w +z -z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end z"); delete lz; lz = nullptr; mark("ended z");
        mark("stop");
    }
    void seq_181(W &w, W &x, W &y) { // +w +x +y -w -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_182(W &w, W &x, W &y) { // +w +x +y -w -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_183(W &w, W &x, W &y) { // +w +x +y -w -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_184(W &w, W &x, W &y, W &z) { // +w +x +y -w -x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_185(W &w, W &x, W &y) { // +w +x +y -w -x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_186(W &w, W &x, W &y) { // +w +x +y -w -y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_187(W &w, W &x, W &y) { // +w +x +y -w -y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_188(W &w, W &x, W &y) { // +w +x +y -w -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_189(W &w, W &x, W &y, W &z) { // +w +x +y -w -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_190(W &w, W &x, W &y) { // +w +x +y -w -y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_191(W &w, W &x, W &y) { // +w +x +y -x +w +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_192(W &w, W &x, W &y, W &z) { // +w +x +y -x +w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_193(W &w, W &x, W &y) { // +w +x +y -x +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_194(W &w, W &x, W &y) { // +w +x +y -x +w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_195(W &w, W &x, W &y) { // +w +x +y -x +x +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_196(W &w, W &x, W &y) { // +w +x +y -x +x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_197(W &w, W &x, W &y) { // +w +x +y -x +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_198(W &w, W &x, W &y, W &z) { // +w +x +y -x +x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_199(W &w, W &x, W &y) { // +w +x +y -x +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_200(W &w, W &x, W &y) { // +w +x +y -x +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_201(W &w, W &x, W &y) { // +w +x +y -x +x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_202(W &w, W &x, W &y) { // +w +x +y -x +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_203(W &w, W &x, W &y, W &z) { // +w +x +y -x +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_204(W &w, W &x, W &y) { // +w +x +y -x +y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_205(W &w, W &x, W &y) { // +w +x +y -x +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_206(W &w, W &x, W &y, W &z) { // +w +x +y -x +z +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_207(W &w, W &x, W &y, W &z) { // +w +x +y -x +z +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_208(W &w, W &x, W &y, W &z) { // +w +x +y -x +z +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_209(W &w, W &x, W &y, W &z) { // +w +x +y -x +z +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_210(W &w, W &x, W &y, W &z) { // +w +x +y -x +z -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_211(W &w, W &x, W &y, W &z) { // +w +x +y -x +z -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_212(W &w, W &x, W &y, W &z) { // +w +x +y -x +z -z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end z"); delete lz; lz = nullptr; mark("ended z");
        mark("stop");
    }
    void seq_213(W &w, W &x, W &y) { // +w +x +y -x -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_214(W &w, W &x, W &y) { // +w +x +y -x -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_215(W &w, W &x, W &y) { // +w +x +y -x -w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_216(W &w, W &x, W &y, W &z) { // +w +x +y -x -w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_217(W &w, W &x, W &y) { // +w +x +y -x -w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_218(W &w, W &x, W &y) { // +w +x +y -x -y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_219(W &w, W &x, W &y) { // +w +x +y -x -y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_220(W &w, W &x, W &y) { // +w +x +y -x -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_221(W &w, W &x, W &y, W &z) { // +w +x +y -x -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_222(W &w, W &x, W &y) { // +w +x +y -x -y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_223(W &w, W &x, W &y) { // +w +x +y -y +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_224(W &w, W &x, W &y, W &z) { // +w +x +y -y +w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_225(W &w, W &x, W &y) { // +w +x +y -y +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_226(W &w, W &x, W &y) { // +w +x +y -y +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_227(W &w, W &x, W &y) { // +w +x +y -y +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_228(W &w, W &x, W &y, W &z) { // +w +x +y -y +x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_229(W &w, W &x, W &y) { // +w +x +y -y +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_230(W &w, W &x, W &y) { // +w +x +y -y +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_231(W &w, W &x, W &y) { // +w +x +y -y +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_232(W &w, W &x, W &y) { // +w +x +y -y +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_233(W &w, W &x, W &y) { // +w +x +y -y +y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_234(W &w, W &x, W &y, W &z) { // +w +x +y -y +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_235(W &w, W &x, W &y) { // +w +x +y -y +y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_236(W &w, W &x, W &y) { // +w +x +y -y +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_237(W &w, W &x, W &y) { // +w +x +y -y +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_238(W &w, W &x, W &y, W &z) { // +w +x +y -y +z +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_239(W &w, W &x, W &y, W &z) { // +w +x +y -y +z +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_240(W &w, W &x, W &y, W &z) { // +w +x +y -y +z +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_241(W &w, W &x, W &y, W &z) { // +w +x +y -y +z +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_242(W &w, W &x, W &y, W &z) { // +w +x +y -y +z -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_243(W &w, W &x, W &y, W &z) { // +w +x +y -y +z -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_244(W &w, W &x, W &y, W &z) { // +w +x +y -y +z -z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end z"); delete lz; lz = nullptr; mark("ended z");
        mark("stop");
    }
    void seq_245(W &w, W &x, W &y) { // +w +x +y -y -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_246(W &w, W &x, W &y) { // +w +x +y -y -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_247(W &w, W &x, W &y) { // +w +x +y -y -w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_248(W &w, W &x, W &y, W &z) { // +w +x +y -y -w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_249(W &w, W &x, W &y) { // +w +x +y -y -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_250(W &w, W &x, W &y) { // +w +x +y -y -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_251(W &w, W &x, W &y) { // +w +x +y -y -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_252(W &w, W &x, W &y) { // +w +x +y -y -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_253(W &w, W &x, W &y, W &z) { // +w +x +y -y -x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_254(W &w, W &x, W &y) { // +w +x +y -y -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_255(W &w, W &x, W &y) { // +w +x -w +w +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_256(W &w, W &x) { // +w +x -w +w +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_257(W &w, W &x) { // +w +x -w +w +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_258(W &w, W &x, W &y) { // +w +x -w +w +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_259(W &w, W &x) { // +w +x -w +w +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_260(W &w, W &x) { // +w +x -w +w +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_261(W &w, W &x, W &y) { // +w +x -w +w +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_262(W &w, W &x, W &y) { // +w +x -w +w +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_263(W &w, W &x, W &y) { // +w +x -w +w +y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_264(W &w, W &x, W &y, W &z) { // +w +x -w +w +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_265(W &w, W &x, W &y) { // +w +x -w +w +y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_266(W &w, W &x, W &y) { // +w +x -w +w +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_267(W &w, W &x, W &y) { // +w +x -w +w +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_268(W &w, W &x) { // +w +x -w +w -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_269(W &w, W &x) { // +w +x -w +w -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_270(W &w, W &x, W &y) { // +w +x -w +w -w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_271(W &w, W &x) { // +w +x -w +w -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_272(W &w, W &x) { // +w +x -w +w -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_273(W &w, W &x) { // +w +x -w +w -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_274(W &w, W &x, W &y) { // +w +x -w +w -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_275(W &w, W &x) { // +w +x -w +w -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_276(W &w, W &x, W &y) { // +w +x -w +x +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_277(W &w, W &x) { // +w +x -w +x +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_278(W &w, W &x) { // +w +x -w +x +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_279(W &w, W &x, W &y) { // +w +x -w +x +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_280(W &w, W &x, W &y, W &z) { // +w +x -w +x +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_281(W &w, W &x, W &y) { // +w +x -w +x +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_282(W &w, W &x, W &y) { // +w +x -w +x +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_283(W &w, W &x) { // +w +x -w +x -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_284(W &w, W &x) { // +w +x -w +x -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_285(W &w, W &x, W &y) { // +w +x -w +x -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_286(W &w, W &x, W &y) { // +w +x -w +y +w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_287(W &w, W &x, W &y) { // +w +x -w +y +w +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_288(W &w, W &x, W &y) { // +w +x -w +y +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_289(W &w, W &x, W &y, W &z) { // +w +x -w +y +w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_290(W &w, W &x, W &y) { // +w +x -w +y +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_291(W &w, W &x, W &y) { // +w +x -w +y +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_292(W &w, W &x, W &y) { // +w +x -w +y +w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_293(W &w, W &x, W &y) { // +w +x -w +y +x +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_294(W &w, W &x, W &y, W &z) { // +w +x -w +y +x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_295(W &w, W &x, W &y) { // +w +x -w +y +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_296(W &w, W &x, W &y) { // +w +x -w +y +x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_297(W &w, W &x, W &y) { // +w +x -w +y +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_298(W &w, W &x, W &y, W &z) { // +w +x -w +y +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_299(W &w, W &x, W &y) { // +w +x -w +y +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_300(W &w, W &x, W &y) { // +w +x -w +y +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_301(W &w, W &x, W &y, W &z) { // +w +x -w +y +z +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_302(W &w, W &x, W &y, W &z) { // +w +x -w +y +z +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_303(W &w, W &x, W &y, W &z) { // +w +x -w +y +z +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_304(W &w, W &x, W &y, W &z) { // +w +x -w +y +z +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_305(W &w, W &x, W &y, W &z) { // +w +x -w +y +z -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_306(W &w, W &x, W &y, W &z) { // +w +x -w +y +z -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_307(W &w, W &x, W &y, W &z) { // +w +x -w +y +z -z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end z"); delete lz; lz = nullptr; mark("ended z");
        mark("stop");
    }
    void seq_308(W &w, W &x, W &y) { // +w +x -w +y -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_309(W &w, W &x, W &y) { // +w +x -w +y -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_310(W &w, W &x, W &y) { // +w +x -w +y -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_311(W &w, W &x, W &y, W &z) { // +w +x -w +y -x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_312(W &w, W &x, W &y) { // +w +x -w +y -x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_313(W &w, W &x, W &y) { // +w +x -w +y -y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_314(W &w, W &x, W &y) { // +w +x -w +y -y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_315(W &w, W &x, W &y) { // +w +x -w +y -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_316(W &w, W &x, W &y, W &z) { // +w +x -w +y -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_317(W &w, W &x, W &y) { // +w +x -w +y -y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_318(W &w, W &x) { // +w +x -w -x +w +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_319(W &w, W &x) { // +w +x -w -x +w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_320(W &w, W &x, W &y) { // +w +x -w -x +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_321(W &w, W &x) { // +w +x -w -x +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_322(W &w, W &x) { // +w +x -w -x +x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_323(W &w, W &x) { // +w +x -w -x +x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_324(W &w, W &x, W &y) { // +w +x -w -x +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_325(W &w, W &x) { // +w +x -w -x +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_326(W &w, W &x, W &y) { // +w +x -w -x +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_327(W &w, W &x, W &y) { // +w +x -w -x +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_328(W &w, W &x, W &y) { // +w +x -w -x +y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_329(W &w, W &x, W &y, W &z) { // +w +x -w -x +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_330(W &w, W &x, W &y) { // +w +x -w -x +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_331(W &w, W &x, W &y) { // +w +x -x +w +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_332(W &w, W &x) { // +w +x -x +w +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_333(W &w, W &x) { // +w +x -x +w +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_334(W &w, W &x, W &y) { // +w +x -x +w +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_335(W &w, W &x, W &y, W &z) { // +w +x -x +w +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_336(W &w, W &x, W &y) { // +w +x -x +w +y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_337(W &w, W &x, W &y) { // +w +x -x +w +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_338(W &w, W &x) { // +w +x -x +w -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_339(W &w, W &x) { // +w +x -x +w -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_340(W &w, W &x, W &y) { // +w +x -x +w -w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_341(W &w, W &x, W &y) { // +w +x -x +x +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_342(W &w, W &x) { // +w +x -x +x +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_343(W &w, W &x) { // +w +x -x +x +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_344(W &w, W &x, W &y) { // +w +x -x +x +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_345(W &w, W &x) { // +w +x -x +x +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_346(W &w, W &x) { // +w +x -x +x +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_347(W &w, W &x, W &y) { // +w +x -x +x +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_348(W &w, W &x, W &y) { // +w +x -x +x +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_349(W &w, W &x, W &y) { // +w +x -x +x +y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_350(W &w, W &x, W &y, W &z) { // +w +x -x +x +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_351(W &w, W &x, W &y) { // +w +x -x +x +y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_352(W &w, W &x, W &y) { // +w +x -x +x +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_353(W &w, W &x, W &y) { // +w +x -x +x +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_354(W &w, W &x) { // +w +x -x +x -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_355(W &w, W &x) { // +w +x -x +x -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_356(W &w, W &x, W &y) { // +w +x -x +x -w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_357(W &w, W &x) { // +w +x -x +x -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_358(W &w, W &x) { // +w +x -x +x -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_359(W &w, W &x) { // +w +x -x +x -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_360(W &w, W &x, W &y) { // +w +x -x +x -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_361(W &w, W &x) { // +w +x -x +x -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_362(W &w, W &x, W &y) { // +w +x -x +y +w +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_363(W &w, W &x, W &y, W &z) { // +w +x -x +y +w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_364(W &w, W &x, W &y) { // +w +x -x +y +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_365(W &w, W &x, W &y) { // +w +x -x +y +w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_366(W &w, W &x, W &y) { // +w +x -x +y +x +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_367(W &w, W &x, W &y) { // +w +x -x +y +x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_368(W &w, W &x, W &y) { // +w +x -x +y +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_369(W &w, W &x, W &y, W &z) { // +w +x -x +y +x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_370(W &w, W &x, W &y) { // +w +x -x +y +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_371(W &w, W &x, W &y) { // +w +x -x +y +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_372(W &w, W &x, W &y) { // +w +x -x +y +x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_373(W &w, W &x, W &y) { // +w +x -x +y +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_374(W &w, W &x, W &y, W &z) { // +w +x -x +y +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_375(W &w, W &x, W &y) { // +w +x -x +y +y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_376(W &w, W &x, W &y) { // +w +x -x +y +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_377(W &w, W &x, W &y, W &z) { // +w +x -x +y +z +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_378(W &w, W &x, W &y, W &z) { // +w +x -x +y +z +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_379(W &w, W &x, W &y, W &z) { // +w +x -x +y +z +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_380(W &w, W &x, W &y, W &z) { // +w +x -x +y +z +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_381(W &w, W &x, W &y, W &z) { // +w +x -x +y +z -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_382(W &w, W &x, W &y, W &z) { // +w +x -x +y +z -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_383(W &w, W &x, W &y, W &z) { // +w +x -x +y +z -z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end z"); delete lz; lz = nullptr; mark("ended z");
        mark("stop");
    }
    void seq_384(W &w, W &x, W &y) { // +w +x -x +y -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_385(W &w, W &x, W &y) { // +w +x -x +y -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_386(W &w, W &x, W &y) { // +w +x -x +y -w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_387(W &w, W &x, W &y, W &z) { // +w +x -x +y -w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_388(W &w, W &x, W &y) { // +w +x -x +y -w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_389(W &w, W &x, W &y) { // +w +x -x +y -y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_390(W &w, W &x, W &y) { // +w +x -x +y -y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_391(W &w, W &x, W &y) { // +w +x -x +y -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_392(W &w, W &x, W &y, W &z) { // +w +x -x +y -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_393(W &w, W &x, W &y) { // +w +x -x +y -y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_394(W &w, W &x) { // +w +x -x -w +w +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_395(W &w, W &x) { // +w +x -x -w +w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_396(W &w, W &x, W &y) { // +w +x -x -w +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_397(W &w, W &x) { // +w +x -x -w +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_398(W &w, W &x) { // +w +x -x -w +x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_399(W &w, W &x) { // +w +x -x -w +x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_400(W &w, W &x, W &y) { // +w +x -x -w +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_401(W &w, W &x) { // +w +x -x -w +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_402(W &w, W &x, W &y) { // +w +x -x -w +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_403(W &w, W &x, W &y) { // +w +x -x -w +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_404(W &w, W &x, W &y) { // +w +x -x -w +y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_405(W &w, W &x, W &y, W &z) { // +w +x -x -w +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_406(W &w, W &x, W &y) { // +w +x -x -w +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_407(W &w, W &x, W &y) { // +w -w +w +w +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_408(W &w, W &x) { // +w -w +w +w +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_409(W &w, W &x) { // +w -w +w +w +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_410(W &w) { // +w -w +w +w -w +w
        L *lw = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_411(W &w, W &x) { // +w -w +w +w -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_412(W &w, W &x, W &y) { // +w -w +w +x +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_413(W &w, W &x) { // +w -w +w +x +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_414(W &w, W &x) { // +w -w +w +x +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_415(W &w, W &x, W &y) { // +w -w +w +x +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_416(W &w, W &x) { // +w -w +w +x +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_417(W &w, W &x) { // +w -w +w +x +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_418(W &w, W &x, W &y) { // +w -w +w +x +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_419(W &w, W &x, W &y) { // +w -w +w +x +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_420(W &w, W &x, W &y) { // +w -w +w +x +y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_421(W &w, W &x, W &y, W &z) { // +w -w +w +x +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_422(W &w, W &x, W &y) { // +w -w +w +x +y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_423(W &w, W &x, W &y) { // +w -w +w +x +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_424(W &w, W &x, W &y) { // +w -w +w +x +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_425(W &w, W &x) { // +w -w +w +x -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_426(W &w, W &x) { // +w -w +w +x -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_427(W &w, W &x, W &y) { // +w -w +w +x -w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_428(W &w, W &x) { // +w -w +w +x -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_429(W &w, W &x) { // +w -w +w +x -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_430(W &w, W &x) { // +w -w +w +x -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_431(W &w, W &x, W &y) { // +w -w +w +x -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_432(W &w, W &x) { // +w -w +w +x -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_433(W &w) { // +w -w +w -w +w +w
        L *lw = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_434(W &w, W &x) { // +w -w +w -w +w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_435(W &w) { // +w -w +w -w +w -w
        L *lw = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_436(W &w, W &x) { // +w -w +w -w +x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_437(W &w, W &x) { // +w -w +w -w +x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_438(W &w, W &x, W &y) { // +w -w +w -w +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_439(W &w, W &x) { // +w -w +w -w +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_440(W &w, W &x, W &y) { // +w -w +x +w +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_441(W &w, W &x) { // +w -w +x +w +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_442(W &w, W &x) { // +w -w +x +w +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_443(W &w, W &x, W &y) { // +w -w +x +w +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_444(W &w, W &x) { // +w -w +x +w +x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_445(W &w, W &x) { // +w -w +x +w +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_446(W &w, W &x, W &y) { // +w -w +x +w +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_447(W &w, W &x, W &y) { // +w -w +x +w +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_448(W &w, W &x, W &y) { // +w -w +x +w +y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_449(W &w, W &x, W &y, W &z) { // +w -w +x +w +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_450(W &w, W &x, W &y) { // +w -w +x +w +y -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_451(W &w, W &x, W &y) { // +w -w +x +w +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_452(W &w, W &x, W &y) { // +w -w +x +w +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_453(W &w, W &x) { // +w -w +x +w -w +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_454(W &w, W &x) { // +w -w +x +w -w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_455(W &w, W &x, W &y) { // +w -w +x +w -w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_456(W &w, W &x) { // +w -w +x +w -w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_457(W &w, W &x) { // +w -w +x +w -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_458(W &w, W &x) { // +w -w +x +w -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_459(W &w, W &x, W &y) { // +w -w +x +w -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_460(W &w, W &x) { // +w -w +x +w -x -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_461(W &w, W &x, W &y) { // +w -w +x +x +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_462(W &w, W &x) { // +w -w +x +x +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_463(W &w, W &x) { // +w -w +x +x +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_464(W &w, W &x, W &y) { // +w -w +x +x +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_465(W &w, W &x, W &y, W &z) { // +w -w +x +x +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_466(W &w, W &x, W &y) { // +w -w +x +x +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_467(W &w, W &x, W &y) { // +w -w +x +x +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_468(W &w, W &x) { // +w -w +x +x -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_469(W &w, W &x) { // +w -w +x +x -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_470(W &w, W &x, W &y) { // +w -w +x +x -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_471(W &w, W &x, W &y) { // +w -w +x +y +w +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_472(W &w, W &x, W &y) { // +w -w +x +y +w +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_473(W &w, W &x, W &y) { // +w -w +x +y +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_474(W &w, W &x, W &y, W &z) { // +w -w +x +y +w +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_475(W &w, W &x, W &y) { // +w -w +x +y +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_476(W &w, W &x, W &y) { // +w -w +x +y +w -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_477(W &w, W &x, W &y) { // +w -w +x +y +w -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_478(W &w, W &x, W &y) { // +w -w +x +y +x +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_479(W &w, W &x, W &y, W &z) { // +w -w +x +y +x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_480(W &w, W &x, W &y) { // +w -w +x +y +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_481(W &w, W &x, W &y) { // +w -w +x +y +x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_482(W &w, W &x, W &y) { // +w -w +x +y +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_483(W &w, W &x, W &y, W &z) { // +w -w +x +y +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_484(W &w, W &x, W &y) { // +w -w +x +y +y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_485(W &w, W &x, W &y) { // +w -w +x +y +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_486(W &w, W &x, W &y, W &z) { // +w -w +x +y +z +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_487(W &w, W &x, W &y, W &z) { // +w -w +x +y +z +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_488(W &w, W &x, W &y, W &z) { // +w -w +x +y +z +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_489(W &w, W &x, W &y, W &z) { // +w -w +x +y +z +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_490(W &w, W &x, W &y, W &z) { // +w -w +x +y +z -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_491(W &w, W &x, W &y, W &z) { // +w -w +x +y +z -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_492(W &w, W &x, W &y, W &z) { // +w -w +x +y +z -z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("end z"); delete lz; lz = nullptr; mark("ended z");
        mark("stop");
    }
    void seq_493(W &w, W &x, W &y) { // +w -w +x +y -x +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_494(W &w, W &x, W &y) { // +w -w +x +y -x +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_495(W &w, W &x, W &y) { // +w -w +x +y -x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_496(W &w, W &x, W &y, W &z) { // +w -w +x +y -x +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_497(W &w, W &x, W &y) { // +w -w +x +y -x -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
    void seq_498(W &w, W &x, W &y) { // +w -w +x +y -y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_499(W &w, W &x, W &y) { // +w -w +x +y -y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_500(W &w, W &x, W &y) { // +w -w +x +y -y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_501(W &w, W &x, W &y, W &z) { // +w -w +x +y -y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_502(W &w, W &x, W &y) { // +w -w +x +y -y -x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_503(W &w, W &x) { // +w -w +x -x +w +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_504(W &w, W &x) { // +w -w +x -x +w +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_505(W &w, W &x, W &y) { // +w -w +x -x +w +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_506(W &w, W &x) { // +w -w +x -x +w -w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        mark("stop");
    }
    void seq_507(W &w, W &x) { // +w -w +x -x +x +w
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_508(W &w, W &x) { // +w -w +x -x +x +x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_509(W &w, W &x, W &y) { // +w -w +x -x +x +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_510(W &w, W &x) { // +w -w +x -x +x -x
        L *lw = nullptr;
        L *lx = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        mark("stop");
    }
    void seq_511(W &w, W &x, W &y) { // +w -w +x -x +y +w
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("stop");
    }
    void seq_512(W &w, W &x, W &y) { // +w -w +x -x +y +x
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("stop");
    }
    void seq_513(W &w, W &x, W &y) { // +w -w +x -x +y +y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("stop");
    }
    void seq_514(W &w, W &x, W &y, W &z) { // +w -w +x -x +y +z
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        L *lz = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        try { mark("try z"); auto *n = new L(z); mark("ok z"); lz = n; } catch (const std::exception &) { mark("no z"); }
        mark("stop");
    }
    void seq_515(W &w, W &x, W &y) { // +w -w +x -x +y -y
        L *lw = nullptr;
        L *lx = nullptr;
        L *ly = nullptr;
        try { mark("try w"); auto *n = new L(w); mark("ok w"); lw = n; } catch (const std::exception &) { mark("no w"); }
        mark("end w"); delete lw; lw = nullptr; mark("ended w");
        try { mark("try x"); auto *n = new L(x); mark("ok x"); lx = n; } catch (const std::exception &) { mark("no x"); }
        mark("end x"); delete lx; lx = nullptr; mark("ended x");
        try { mark("try y"); auto *n = new L(y); mark("ok y"); ly = n; } catch (const std::exception &) { mark("no y"); }
        mark("end y"); delete ly; ly = nullptr; mark("ended y");
        mark("stop");
    }
} // namespace vf
