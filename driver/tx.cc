// Level B: start and end of transactions for every kind of permission set. "havoc" forgets which changes were flagged.
#include "common.hh"
namespace vf {
#define TX(name, ...)                                                                                                            \
    void tx_##name(W &w) {                                                                                                       \
        {                                                                                                                        \
            auto lock = w.StartTransaction<__VA_ARGS__>();                                                                       \
            mark("started");                                                                                                     \
            mark("havoc");                                                                                                       \
        }                                                                                                                        \
        mark("ended");                                                                                                           \
        mark("stop");                                                                                                            \
    }                                                                                                                            \
    void ts_##name(W &w) {                                                                                                       \
        auto lock = w.StartTransaction<__VA_ARGS__>();                                                                           \
        mark("started");                                                                                                         \
        mark("stop");                                                                                                            \
    }
    void tx_none(W &w) {
        {
            auto lock = w.StartTransaction();
            mark("started");
            mark("havoc");
        }
        mark("ended");
        mark("stop");
    }
    void ts_none(W &w) {
        auto lock = w.StartTransaction();
        mark("started");
        mark("stop");
    }
    TX(rA, Read<A>)
    TX(rAB, Read<A, B>)
    TX(rG, Read<G>)
    TX(rall, ReadAll)
    TX(wA, Write<A>)
    TX(wB_rA, Read<A>, Write<B>)
    TX(wA_rBG, Write<A>, Read<B, G>)
    TX(wAB, Write<A, B>)
    TX(wG, Write<G>)
    TX(wAG, Write<G, A>)
    TX(wall, WriteAll)
    TX(ar, AddRemove)
    TX(ar_wall, WriteAll, AddRemove)
    TX(nested, Lock<W, Read<A>, Write<B>>)
#ifdef VF_WIDE
    TX(wC_rBG, Write<C>, Read<B, G>)
    TX(wBCG, Write<B, C, G>)
#endif

    // the transaction ends because of an exception
    void tx_throw_wA_rB(W &w) {
        try {
            auto lock = w.StartTransaction<Write<A>, Read<B>>();
            mark("started");
            mark("havoc");
            throw 1;
        } catch (int) {
        }
        mark("ended");
        mark("stop");
    }
} // namespace vf
