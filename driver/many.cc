// Generated by tools/gen_trylock.py: run-time lock requests on instances with many component types.
#include "common.hh"
namespace vf {
    template<int>
    struct X {
        int v;
    };
} // namespace vf
namespace vf {
    namespace m40 {
        using W = ECS<X<0>, X<1>, X<2>, X<3>, X<4>, X<5>, X<6>, X<7>, X<8>, X<9>, X<10>, X<11>, X<12>, X<13>, X<14>, X<15>, X<16>, X<17>, X<18>, X<19>, X<20>, X<21>, X<22>, X<23>, X<24>, X<25>, X<26>, X<27>, X<28>, X<29>, A, B, X<32>, X<33>, X<34>, X<35>, X<36>, X<37>, X<38>, G>;
        void tm_40_0(Lock<W> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_2(Lock<W, Read<A>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_3(Lock<W, Read<B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_4(Lock<W, Read<A, B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_5(Lock<W, Read<G>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_6(Lock<W, ReadAll> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_8(Lock<W, Write<A>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_9(Lock<W, Write<A, B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_10(Lock<W, Write<G>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_11(Lock<W, WriteAll> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_12(Lock<W, AddRemove> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_13(Lock<W, Read<A>, Write<B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_18(Lock<W, Lock<W, Read<A>>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_40_20(Lock<W, Lock<W, AddRemove>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
    } // namespace m40
    namespace m63 {
        using W = ECS<B, X<1>, X<2>, X<3>, X<4>, X<5>, X<6>, X<7>, X<8>, X<9>, X<10>, X<11>, X<12>, X<13>, X<14>, X<15>, X<16>, X<17>, X<18>, X<19>, X<20>, X<21>, X<22>, X<23>, X<24>, X<25>, X<26>, X<27>, X<28>, X<29>, X<30>, A, X<32>, X<33>, X<34>, X<35>, X<36>, X<37>, X<38>, X<39>, X<40>, X<41>, X<42>, X<43>, X<44>, X<45>, X<46>, X<47>, X<48>, X<49>, X<50>, X<51>, X<52>, X<53>, X<54>, X<55>, X<56>, X<57>, X<58>, X<59>, X<60>, X<61>, G>;
        void tm_63_0(Lock<W> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_2(Lock<W, Read<A>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_3(Lock<W, Read<B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_4(Lock<W, Read<A, B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_5(Lock<W, Read<G>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_6(Lock<W, ReadAll> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_8(Lock<W, Write<A>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_9(Lock<W, Write<A, B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_10(Lock<W, Write<G>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_11(Lock<W, WriteAll> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_12(Lock<W, AddRemove> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_13(Lock<W, Read<A>, Write<B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_18(Lock<W, Lock<W, Read<A>>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_63_20(Lock<W, Lock<W, AddRemove>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
    } // namespace m63
    namespace m64 {
        using W = ECS<B, X<1>, X<2>, X<3>, X<4>, X<5>, X<6>, X<7>, X<8>, X<9>, X<10>, X<11>, X<12>, X<13>, X<14>, X<15>, X<16>, X<17>, X<18>, X<19>, X<20>, X<21>, X<22>, X<23>, X<24>, X<25>, X<26>, X<27>, X<28>, X<29>, X<30>, X<31>, X<32>, X<33>, X<34>, X<35>, X<36>, X<37>, X<38>, X<39>, X<40>, X<41>, X<42>, X<43>, X<44>, X<45>, X<46>, X<47>, X<48>, X<49>, X<50>, X<51>, X<52>, X<53>, X<54>, X<55>, X<56>, X<57>, X<58>, X<59>, X<60>, X<61>, A, G>;
        void tm_64_0(Lock<W> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_2(Lock<W, Read<A>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_3(Lock<W, Read<B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_4(Lock<W, Read<A, B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_5(Lock<W, Read<G>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_6(Lock<W, ReadAll> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_8(Lock<W, Write<A>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_9(Lock<W, Write<A, B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_10(Lock<W, Write<G>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_11(Lock<W, WriteAll> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_12(Lock<W, AddRemove> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_13(Lock<W, Read<A>, Write<B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_18(Lock<W, Lock<W, Read<A>>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_64_20(Lock<W, Lock<W, AddRemove>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
    } // namespace m64
    namespace m70 {
        using W = ECS<X<0>, X<1>, X<2>, X<3>, X<4>, X<5>, X<6>, X<7>, X<8>, X<9>, X<10>, X<11>, X<12>, X<13>, X<14>, X<15>, X<16>, X<17>, X<18>, X<19>, X<20>, X<21>, X<22>, X<23>, X<24>, X<25>, X<26>, X<27>, X<28>, X<29>, X<30>, X<31>, X<32>, X<33>, X<34>, X<35>, X<36>, X<37>, X<38>, X<39>, X<40>, X<41>, X<42>, X<43>, X<44>, X<45>, X<46>, X<47>, X<48>, X<49>, X<50>, X<51>, X<52>, X<53>, X<54>, X<55>, X<56>, X<57>, X<58>, X<59>, X<60>, X<61>, X<62>, A, B, X<65>, X<66>, X<67>, X<68>, G>;
        void tm_70_0(Lock<W> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_2(Lock<W, Read<A>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_3(Lock<W, Read<B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_4(Lock<W, Read<A, B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_5(Lock<W, Read<G>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_6(Lock<W, ReadAll> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_8(Lock<W, Write<A>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_9(Lock<W, Write<A, B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_10(Lock<W, Write<G>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_11(Lock<W, WriteAll> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_12(Lock<W, AddRemove> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_13(Lock<W, Read<A>, Write<B>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_18(Lock<W, Lock<W, Read<A>>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
        void tm_70_20(Lock<W, Lock<W, AddRemove>> &l) {
            mark("started");
            observe("tx", l);
            DynamicLock<W> d(l);
            { auto r = d.TryLock<>(); observe("got 0", (bool)r); if (r) { observe("lock 0", *r); } }
            { auto r = d.TryLock<Read<A>>(); observe("got 2", (bool)r); if (r) { observe("lock 2", *r); } }
            { auto r = d.TryLock<Read<B>>(); observe("got 3", (bool)r); if (r) { observe("lock 3", *r); } }
            { auto r = d.TryLock<Read<A, B>>(); observe("got 4", (bool)r); if (r) { observe("lock 4", *r); } }
            { auto r = d.TryLock<Read<G>>(); observe("got 5", (bool)r); if (r) { observe("lock 5", *r); } }
            { auto r = d.TryLock<ReadAll>(); observe("got 6", (bool)r); if (r) { observe("lock 6", *r); } }
            { auto r = d.TryLock<Write<A>>(); observe("got 8", (bool)r); if (r) { observe("lock 8", *r); } }
            { auto r = d.TryLock<Write<A, B>>(); observe("got 9", (bool)r); if (r) { observe("lock 9", *r); } }
            { auto r = d.TryLock<Write<G>>(); observe("got 10", (bool)r); if (r) { observe("lock 10", *r); } }
            { auto r = d.TryLock<WriteAll>(); observe("got 11", (bool)r); if (r) { observe("lock 11", *r); } }
            { auto r = d.TryLock<AddRemove>(); observe("got 12", (bool)r); if (r) { observe("lock 12", *r); } }
            { auto r = d.TryLock<Read<A>, Write<B>>(); observe("got 13", (bool)r); if (r) { observe("lock 13", *r); } }
            { auto r = d.TryLock<Lock<W, Read<A>>>(); observe("got 18", (bool)r); if (r) { observe("lock 18", *r); } }
            { auto r = d.TryLock<Lock<W, AddRemove>>(); observe("got 20", (bool)r); if (r) { observe("lock 20", *r); } }
            mark("stop");
        }
    } // namespace m70
} // namespace vf
