// Level A: every lock primitive on its own, for an entity component and for the entity metadata type of lock.
#include "common.hh"
namespace vf {
    using L = ComponentIndex<A>;
    void la_read_block(L &c) { observe("ret", c.ReadLock(true)); mark("stop"); }
    void la_read_try(L &c) { observe("ret", c.ReadLock(false)); mark("stop"); }
    void la_read_default(L &c) { observe("ret", c.ReadLock()); mark("stop"); }
    void la_read_unlock(L &c) { c.ReadUnlock(); mark("stop"); }
    void la_write_block(L &c) { observe("ret", c.WriteLock(true)); mark("stop"); }
    void la_write_try(L &c) { observe("ret", c.WriteLock(false)); mark("stop"); }
    void la_write_default(L &c) { observe("ret", c.WriteLock()); mark("stop"); }
    void la_commit_lock(L &c) { c.CommitLock(); mark("stop"); }
    void la_commit_unlock(L &c) { c.CommitUnlock(); mark("stop"); }
    void la_write_unlock(L &c) { c.WriteUnlock(); mark("stop"); }
    void la_write_unlock_commit(L &c) { c.WriteUnlock(); mark("stop"); }
    void la_new() { L c; mark("stop"); }
    // everything that could touch the lock words
    void la_all(W &w, Entity e, A &v) {
        {
            auto lock = w.StartTransaction<AddRemove>();
            e.Set<A>(lock, v);
            lock.NewEntity().Destroy(lock);
        }
        auto l2 = w.StartTransaction<Read<A>, Write<B>>();
        DynamicLock<W> d = l2;
        d.TryLock<Read<A>>();
        l2.ReadOnlySubset();
    }
} // namespace vf
