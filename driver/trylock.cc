// Generated by tools/gen_trylock.py: run-time lock requests.
#include "common.hh"
namespace vf {
    void tl_direct_0(W &w) {
        auto l = w.StartTransaction<>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_1(W &w) {
        auto l = w.StartTransaction<Read<>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_2(W &w) {
        auto l = w.StartTransaction<Read<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_3(W &w) {
        auto l = w.StartTransaction<Read<B>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_4(W &w) {
        auto l = w.StartTransaction<Read<A, B>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_5(W &w) {
        auto l = w.StartTransaction<Read<G>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_6(W &w) {
        auto l = w.StartTransaction<ReadAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_7(W &w) {
        auto l = w.StartTransaction<Write<>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_8(W &w) {
        auto l = w.StartTransaction<Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_9(W &w) {
        auto l = w.StartTransaction<Write<A, B>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_10(W &w) {
        auto l = w.StartTransaction<Write<G>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_11(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_12(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_13(W &w) {
        auto l = w.StartTransaction<Read<A>, Write<B>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_14(W &w) {
        auto l = w.StartTransaction<Write<A>, Read<A, B>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_15(W &w) {
        auto l = w.StartTransaction<Read<A>, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_16(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_17(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_18(W &w) {
        auto l = w.StartTransaction<Lock<W, Read<A>>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_19(W &w) {
        auto l = w.StartTransaction<Lock<W, Write<A>>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_20(W &w) {
        auto l = w.StartTransaction<Lock<W, AddRemove>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_21(W &w) {
        auto l = w.StartTransaction<Lock<W, Lock<W, Write<A>>, Read<B>>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_22(W &w) {
        auto l = w.StartTransaction<DynamicLock<W, Write<A>>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_23(W &w) {
        auto l = w.StartTransaction<DynamicLock<W, AddRemove>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_24(W &w) {
        auto l = w.StartTransaction<WriteAll, AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_25(W &w) {
        auto l = w.StartTransaction<Read<A>, AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_26(W &w) {
        auto l = w.StartTransaction<Write<A, B, G>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_27(W &w) {
        auto l = w.StartTransaction<Read<A, B, G>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_direct_28(W &w) {
        auto l = w.StartTransaction<Lock<W, WriteAll>, Read<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d(l);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_0(W &w) {
        auto l = w.StartTransaction<>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_2(W &w) {
        auto l = w.StartTransaction<Read<A>>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_5(W &w) {
        auto l = w.StartTransaction<Read<G>>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_6(W &w) {
        auto l = w.StartTransaction<ReadAll>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_8(W &w) {
        auto l = w.StartTransaction<Write<A>>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_10(W &w) {
        auto l = w.StartTransaction<Write<G>>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_11(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_12(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_13(W &w) {
        auto l = w.StartTransaction<Read<A>, Write<B>>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_16(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_17(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_19(W &w) {
        auto l = w.StartTransaction<Lock<W, Write<A>>>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_20(W &w) {
        auto l = w.StartTransaction<Lock<W, AddRemove>>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_26(W &w) {
        auto l = w.StartTransaction<Write<A, B, G>>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_view_27(W &w) {
        auto l = w.StartTransaction<Read<A, B, G>>();
        mark("started");
        auto v = l.ReadOnlySubset();
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_0(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_0(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_1(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, Read<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_1(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_2(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, Read<G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_2(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_3(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, ReadAll> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_3(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, ReadAll> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_4(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_4(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_5(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, Write<G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_5(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Write<G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_6(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, WriteAll> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_6(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, WriteAll> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_8(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, Read<A>, Write<B>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_8(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<A>, Write<B>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_9(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, ReadAll, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_9(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, ReadAll, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_10(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, Read<B, G>, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_10(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<B, G>, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_11(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, Lock<W, Write<A>>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_11(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Lock<W, Write<A>>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_13(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, Write<A, B, G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_13(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Write<A, B, G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_11_14(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        Lock<W, Read<A, B, G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_11_14(W &w) {
        auto l = w.StartTransaction<WriteAll>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<A, B, G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_0(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_0(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_1(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, Read<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_1(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_2(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, Read<G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_2(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_3(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, ReadAll> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_3(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, ReadAll> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_4(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_4(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_5(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, Write<G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_5(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Write<G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_6(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, WriteAll> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_6(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, WriteAll> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_7(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, AddRemove> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_7(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, AddRemove> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_8(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, Read<A>, Write<B>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_8(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<A>, Write<B>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_9(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, ReadAll, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_9(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, ReadAll, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_10(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, Read<B, G>, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_10(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<B, G>, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_11(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, Lock<W, Write<A>>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_11(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Lock<W, Write<A>>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_12(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, Lock<W, AddRemove>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_12(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Lock<W, AddRemove>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_13(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, Write<A, B, G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_13(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Write<A, B, G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_12_14(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        Lock<W, Read<A, B, G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_12_14(W &w) {
        auto l = w.StartTransaction<AddRemove>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<A, B, G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_16_0(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        Lock<W> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_16_0(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_16_1(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        Lock<W, Read<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_16_1(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_16_2(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        Lock<W, Read<G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_16_2(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_16_3(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        Lock<W, ReadAll> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_16_3(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, ReadAll> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_16_4(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        Lock<W, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_16_4(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_16_9(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        Lock<W, ReadAll, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_16_9(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, ReadAll, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_16_10(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        Lock<W, Read<B, G>, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_16_10(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<B, G>, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_16_11(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        Lock<W, Lock<W, Write<A>>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_16_11(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Lock<W, Write<A>>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_16_14(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        Lock<W, Read<A, B, G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_16_14(W &w) {
        auto l = w.StartTransaction<ReadAll, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<A, B, G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_17_0(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        Lock<W> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_17_0(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_17_1(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        Lock<W, Read<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_17_1(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_17_2(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        Lock<W, Read<G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_17_2(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_17_3(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        Lock<W, ReadAll> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_17_3(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, ReadAll> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_17_4(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        Lock<W, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_17_4(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_17_9(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        Lock<W, ReadAll, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_17_9(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, ReadAll, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_17_10(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        Lock<W, Read<B, G>, Write<A>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_17_10(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<B, G>, Write<A>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_17_11(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        Lock<W, Lock<W, Write<A>>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_17_11(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Lock<W, Write<A>>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_narrow_17_14(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        Lock<W, Read<A, B, G>> v = l;
        observe("tx", v);
        DynamicLock<W> d(v);
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
    void tl_static_17_14(W &w) {
        auto l = w.StartTransaction<Read<B, G>, Write<A>>();
        mark("started");
        observe("tx", l);
        DynamicLock<W, Read<A, B, G>> d = l;
        { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
        { auto r = d.TryLock<Read<>>(); observe("got 1", (bool)r); if (r) { observe("lock 1", *r); } }
        { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
        { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
        { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
        { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
        { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
        { auto r = d.TryLock<Write<>>(); observe("got 7", (bool)r); if (r) { observe("lock 7", *r); } }
        { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
        { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
        { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
        { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
        { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
        { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
        { auto r = d.TryLock<Write<A>, Read<A, B>>(); observe("got 14", (bool)r); if (r) { observe("lock 14", *r); } }
        { auto r = d.TryLock<Read<A>, Write<A>>(); observe("got 15", (bool)r); if (r) { observe("lock 15", *r); } }
        { auto r = d.TryLock<ReadAll, Write<A>>(); observe("got 16", (bool)r); if (r) { observe("lock 16", *r); } }
        { auto r = d.TryLock<Read<B, G>, Write<A>>(); observe("got 17", (bool)r); if (r) { observe("lock 17", *r); } }
        { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
        { auto r = d.TryLock<Lock<W, Write<A>>>(); observe("got 19", (bool)r); if (r) { observe("lock 19", *r); } }
        { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
        { auto r = d.TryLock<Lock<W, Lock<W, Write<A>>, Read<B>>>(); observe("got 21", (bool)r); if (r) { observe("lock 21", *r); } }
        { auto r = d.TryLock<DynamicLock<W, Write<A>>>(); observe("got 22", (bool)r); if (r) { observe("lock 22", *r); } }
        { auto r = d.TryLock<DynamicLock<W, AddRemove>>(); observe("got 23", (bool)r); if (r) { observe("lock 23", *r); } }
        { auto r = d.TryLock<WriteAll, AddRemove>(); observe("got 24", (bool)r); if (r) { observe("lock 24", *r); } }
        { auto r = d.TryLock<Read<A>, AddRemove>(); observe("got 25", (bool)r); if (r) { observe("lock 25", *r); } }
        { auto r = d.TryLock<Write<A, B, G>>(); observe("got 26", (bool)r); if (r) { observe("lock 26", *r); } }
        { auto r = d.TryLock<Read<A, B, G>>(); observe("got 27", (bool)r); if (r) { observe("lock 27", *r); } }
        { auto r = d.TryLock<Lock<W, WriteAll>, Read<A>>(); observe("got 28", (bool)r); if (r) { observe("lock 28", *r); } }
        mark("stop");
    }
} // namespace vf
