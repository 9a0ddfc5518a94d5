ST, TX, LK, EN, VW, PM, OB, TR, MN = ("inc/Tecs_storage.hh", "inc/Tecs_transaction.hh", "inc/Tecs_lock.hh", "inc/Tecs_entity.hh",
    "inc/Tecs_entity_view.hh", "inc/Tecs_permissions.hh", "inc/Tecs_observer.hh", "inc/Tecs_tracing.hh", "inc/Tecs.hh")

seed("c01-optimistic-read", "C01", "a reader that sees the writer not committing, then takes its count while a commit has just locked the readers out",
 "ReadLock counts itself in with fetch_add and takes it back when readers were locked out; the word wraps to 0 during a commit, so another "
 "reader or the commit itself sees a state it does not own.",
 [(ST, '''                    uint32_t next = currentReaders + 1;
                    if (readers.compare_exchange_weak(currentReaders,
                            next,
                            std::memory_order_acquire,
                            std::memory_order_relaxed)) {
                        // Lock aquired''', '''                    // Readers don't need to wait for each other
                    currentReaders = readers.fetch_add(1, std::memory_order_acquire);
                    if (currentReaders == READER_LOCKED) {
                        readers.fetch_sub(1, std::memory_order_relaxed);
                    } else {
                        // Lock aquired''')],
 r'''
static Tecs::ComponentIndex<int> ci;
static std::atomic_bool stop{false};
static std::atomic_int inside{0};
int main() {
    std::set_terminate([] { fail("a lock primitive threw"); });
    std::vector<std::thread> ts;
    for (int i = 0; i < 4; i++) ts.emplace_back([] {
        while (!stop) if (ci.ReadLock(false)) { inside++; inside--; ci.ReadUnlock(); }
    });
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    while (std::chrono::steady_clock::now() < end) {
        ci.WriteLock();
        ci.CommitLock();
        for (int i = 0; i < 300; i++) check(inside == 0, "a reader is inside during a commit");
        ci.CommitUnlock();
        ci.WriteUnlock();
    }
    stop = true;
    for (auto &t : ts) t.join();
}
''', flags="-O2")

seed("c03-relaxed-read-release", "C03", "a reader's last accesses and the next commit's writes on a machine (or compiler) that reorders; shown with ThreadSanitizer",
 "ReadUnlock releases with relaxed ordering, so a commit does not happen after the reads of the readers it waited for.",
 [(ST, "readers.fetch_sub(1, std::memory_order_release);", "readers.fetch_sub(1, std::memory_order_relaxed);")],
 r'''
static Tecs::ComponentIndex<int> ci;
static long data = 1;
int main() {
    std::atomic<int> turn{0};
    long seen = 0;
    std::thread r([&] { ci.ReadLock(); turn.store(1, std::memory_order_relaxed); seen = data; ci.ReadUnlock(); });
    while (turn.load(std::memory_order_relaxed) == 0) std::this_thread::yield();
    ci.WriteLock();
    ci.CommitLock();
    data = 2;
    ci.CommitUnlock();
    ci.WriteUnlock();
    r.join();
    return seen == 1 ? 0 : 1;
}
''', flags="-O1 -g -fsanitize=thread", )

seed("c04-notify-last-reader", "C04", "two readers leaving at the same moment while a commit sleeps on the reader count",
 "ReadUnlock wakes the commit only when it believes it was the last reader, judged by a count loaded before the decrement.",
 [(ST, '''            readers.fetch_sub(1, std::memory_order_release);
#if __cpp_lib_atomic_wait
            readers.notify_all();''', '''            readers.fetch_sub(1, std::memory_order_release);
#if __cpp_lib_atomic_wait
            // Only the last reader has anyone to wake
            if (current == 1) readers.notify_all();''')],
 r'''
static Tecs::ComponentIndex<int> ci;
int main() {
    const int N = 3;
    std::atomic<int> locked{0}, go{0}, done{0};
    std::atomic<long> beat{0};
    std::thread dog([&] { long last = -1; for (int i = 0; i < 1000; i++) { sleepMs(4000); long b = beat; if (b < 0) return; if (b == last) fail("a commit was not woken"); last = b; } });
    for (int round = 1; round <= 6000; round++) {
        locked = 0; done = 0;
        std::vector<std::thread> ts;
        for (int i = 0; i < N; i++) ts.emplace_back([&, round] { ci.ReadLock(); locked++; while (go.load() < round) {} ci.ReadUnlock(); });
        while (locked < N) std::this_thread::yield();
        std::thread c([&] { ci.WriteLock(); done = 1; ci.CommitLock(); ci.CommitUnlock(); ci.WriteUnlock(); });
        while (!done) std::this_thread::yield();
        std::this_thread::sleep_for(std::chrono::microseconds(300));
        go = round;
        for (auto &t : ts) t.join();
        c.join();
        beat++;
    }
    beat = -1;
    dog.detach();
    std::_Exit(0);
}
''', flags="-O2")

seed("c06-try-read-retries", "C06", "a non-blocking read request while a commit of the same component is waiting",
 "A non-blocking ReadLock leaves its increment behind when it notices after the fact that a commit has begun.",
 [(ST, '''                        // Lock aquired
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
                        traceInfo.Trace(TraceEvent::Type::ReadLock);''', '''                        // A commit that began in the meantime takes priority
                        if (!block && writer == WRITER_COMMIT) return false;
                        // Lock aquired
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
                        traceInfo.Trace(TraceEvent::Type::ReadLock);''')],
 r'''
static Tecs::ComponentIndex<int> ci;
static std::atomic_bool stop{false};
int main() {
    std::vector<std::thread> ts;
    for (int i = 0; i < 4; i++) ts.emplace_back([] { while (!stop) if (ci.ReadLock(false)) ci.ReadUnlock(); });
    std::atomic<long> beat{0};
    std::thread dog([&] { long last = -1; while (true) { sleepMs(4000); long b = beat; if (b < 0) return; if (b == last) fail("a commit hangs: a refused reader left its count behind"); last = b; } });
    auto end = std::chrono::steady_clock::now() + std::chrono::seconds(20);
    while (std::chrono::steady_clock::now() < end) { ci.WriteLock(); ci.CommitLock(); ci.CommitUnlock(); ci.WriteUnlock(); beat++; }
    beat = -1;
    stop = true;
    for (auto &t : ts) t.join();
    dog.detach();
    std::_Exit(0);
}
''', flags="-O2")

seed("c10-grow-committed", "C10", "entities being created while another transaction holds a reference to committed data",
 "Creating entities also grows the committed component list, without excluding its readers.",
 [(LK, '''                instance.template Storage<T>().writeComponents.resize(newSize);
                instance.template Storage<T>().validEntityIndexes.resize(newSize);''', '''                instance.template Storage<T>().writeComponents.resize(newSize);
                // Keep both buffers the same size so the commit doesn't need to allocate
                instance.template Storage<T>().readComponents.resize(newSize);
                instance.template Storage<T>().validEntityIndexes.resize(newSize);''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
int main() {
    static Wld ecs;
    Tecs::Entity e;
    { auto l = ecs.StartTransaction<Tecs::AddRemove>(); e = l.NewEntity(); e.Set<A>(l, A{1}); }
    std::atomic<int> step{0};
    std::thread r([&] {
        auto l = ecs.StartTransaction<Tecs::Read<A>>();
        const A *before = &e.Get<A>(l);
        step = 1;
        while (step < 2) sleepMs(1);
        check(&e.Get<A>(l) == before, "committed data moved under a reader");
        step = 3;
    });
    while (step < 1) sleepMs(1);
    {
        auto l = ecs.StartTransaction<Tecs::AddRemove>();
        for (int i = 0; i < 3000; i++) l.NewEntity();
        step = 2;
        while (step < 3) sleepMs(1);
    }
    r.join();
}
''')

seed("c11-commit-one-by-one", "C11", "a reader of two components starting while the commit of a third one in between waits for another reader",
 "Each component is locked, swapped and released on its own, so a commit becomes visible component by component.",
 [(TX, '''                        if constexpr (is_write_allowed<AllComponentTypes, LockType>()) {
                            if (this->instance.template BitsetHas<AllComponentTypes>(this->writeAccessedFlags)) {
                                this->instance.template Storage<AllComponentTypes>().CommitLock();
                            }
                        }''', '''                        if constexpr (is_write_allowed<AllComponentTypes, LockType>() &&
                                      is_add_remove_allowed<LockType>()) {
                            if (this->instance.template BitsetHas<AllComponentTypes>(this->writeAccessedFlags)) {
                                this->instance.template Storage<AllComponentTypes>().CommitLock();
                            }
                        }'''),
  (TX, '''                            storage.readComponents.swap(storage.writeComponents);
                            if constexpr''', '''                            // Without structural changes there is no need to hold all components at once
                            if constexpr (!is_add_remove_allowed<LockType>()) storage.CommitLock();
                            storage.readComponents.swap(storage.writeComponents);
                            if constexpr''')],
 r'''
struct A { int v = 0; };
struct B { int v = 0; };
struct C { int v = 0; };
using Wld = Tecs::ECS<A, B, C>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Entity e;
    { auto l = ecs.StartTransaction<AddRemove>(); e = l.NewEntity(); e.Set<A>(l, A{1}); e.Set<B>(l, B{1}); e.Set<C>(l, C{1}); }
    std::atomic<int> step{0};
    std::atomic_bool bad{false};
    std::thread hold([&] { auto l = ecs.StartTransaction<Read<B>>(); step = 1; while (step < 3) sleepMs(1); });
    while (step < 1) sleepMs(1);
    std::thread w([&] { auto l = ecs.StartTransaction<Write<A, B, C>>(); e.Get<A>(l).v = 2; e.Get<B>(l).v = 2; e.Get<C>(l).v = 2; });
    sleepMs(300);
    std::thread r([&] { auto l = ecs.StartTransaction<Read<A, C>>(); if (e.Get<A>(l).v != e.Get<C>(l).v) bad = true; });
    sleepMs(300);
    step = 3;
    hold.join(); w.join(); r.join();
    check(!bad, "half of a commit was visible");
}
''')

seed("c12-stale-entity-list", "C12", "a transaction that destroys one entity and creates another, followed by an AddRemove transaction that looks at the list",
 "The working entity list is not reset when the number of entities stayed the same.",
 [(TX, '''                    this->instance.metadata.writeValidEntities = this->instance.metadata.readValidEntities;
''', '''                    // Nothing to copy if no entities were added or removed
                    if (this->instance.metadata.writeValidEntities.size() !=
                        this->instance.metadata.readValidEntities.size()) {
                        this->instance.metadata.writeValidEntities = this->instance.metadata.readValidEntities;
                    }
''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Entity a, b, c;
    { auto l = ecs.StartTransaction<AddRemove>(); a = l.NewEntity(); b = l.NewEntity(); }
    { auto l = ecs.StartTransaction<AddRemove>(); Entity x = a; x.Destroy(l); c = l.NewEntity(); }
    {
        auto l = ecs.StartTransaction<AddRemove>();
        bool foundC = false;
        for (auto &e : l.Entities()) { check(e.Exists(l), "the working list names an entity that does not exist"); foundC |= e == c; }
        check(foundC, "an existing entity is missing from the working list");
    }
}
''')

seed("c13-destroy-bare", "C13", "destroying an entity that has no components, in a transaction that does nothing else",
 "Destroy relies on the removal of components to mark the change, so destroying a bare entity is never published.",
 [(EN, '''            static_assert(is_add_remove_allowed<LockType>(), "Entities cannot be destroyed without an AddRemove lock.");
            lock.base->writeAccessedFlags[0] = true;

''', '''            static_assert(is_add_remove_allowed<LockType>(), "Entities cannot be destroyed without an AddRemove lock.");

''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Entity a;
    { auto l = ecs.StartTransaction<AddRemove>(); a = l.NewEntity(); }
    Entity keep = a;
    { auto l = ecs.StartTransaction<AddRemove>(); a.Destroy(l); check(!keep.Exists(l), "destroyed in its transaction"); }
    { auto l = ecs.StartTransaction<>(); check(!keep.Exists(l), "a destroyed entity still exists after the commit"); }
}
''')

seed("c16-any-write", "C16", "a run-time request for several write permissions of which the lock has only some",
 "DynamicLock::TryLock accepts a request when any of the requested write permissions is held.",
 [(LK, '''                    (requestedWrite & this->permissions) == requestedWrite) {''', '''                    (requestedWrite.none() || (requestedWrite & this->permissions).any())) {''')],
 r'''
struct A { int v = 0; };
struct B { int v = 0; };
using Wld = Tecs::ECS<A, B>;
using namespace Tecs;
int main() {
    static Wld ecs;
    auto l = ecs.StartTransaction<Write<A>, Read<B>>();
    Lock<Wld, Write<A>, Read<B>> lock = l;
    DynamicLock<Wld, Read<A>> dyn(lock);
    check((bool)dyn.TryLock<Write<A>>(), "a held permission was refused");
    check(!dyn.TryLock<Write<B>>(), "write access was granted without permission");
    check(!dyn.TryLock<Write<A, B>>(), "write access to B was granted without permission");
}
''')

seed("c15-dynamic-write", "C15", "a write through a DynamicLock whose static permissions only allow reading",
 "Read permission of a DynamicLock counts as write permission, so modifying code compiles.",
 [(PM, "struct is_write_allowed<T, DynamicLock<ECSType, Permissions...>> : std::disjunction<is_write_allowed<T, Permissions>...> {};",
       "struct is_write_allowed<T, DynamicLock<ECSType, Permissions...>> : std::disjunction<is_read_allowed<T, Permissions>...> {};")],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
static_assert(Tecs::is_read_allowed<A, DynamicLock<Wld, Read<A>>>(), "read");
static_assert(!Tecs::is_write_allowed<A, DynamicLock<Wld, Read<A>>>(), "no write");
static_assert(Tecs::is_write_allowed<A, DynamicLock<Wld, Write<A>>>(), "write");
int main() {}
''')

seed("c17-set-generation", "C17", "Set with constructor arguments on an entity of another instance that has the same index and generation",
 "Set(args...) compares generations without the instance identifier, so a foreign entity is accepted.",
 [(EN, '''        inline T &Set(const LockType &lock, Args... args) const {
            static_assert(is_write_allowed<T, LockType>(), "Component is not locked for writing.");
            static_assert(!is_global_component<T>(), "Global components must be accessed through lock.Set()");
            lock.base->template SetAccessFlag<T>(true);

#ifndef TECS_UNCHECKED_MODE
            auto &metadataList =
                lock.permissions[0] ? lock.instance.metadata.writeComponents : lock.instance.metadata.readComponents;
            if (index >= metadataList.size()) {
                throw std::runtime_error("Entity does not exist: " + std::to_string(*this));
            }

            auto &metadata = metadataList[index];
            if (!metadata[0] || metadata.generation != generation) {''', '''        inline T &Set(const LockType &lock, Args... args) const {
            static_assert(is_write_allowed<T, LockType>(), "Component is not locked for writing.");
            static_assert(!is_global_component<T>(), "Global components must be accessed through lock.Set()");
            lock.base->template SetAccessFlag<T>(true);

#ifndef TECS_UNCHECKED_MODE
            auto &metadataList =
                lock.permissions[0] ? lock.instance.metadata.writeComponents : lock.instance.metadata.readComponents;
            if (index >= metadataList.size()) {
                throw std::runtime_error("Entity does not exist: " + std::to_string(*this));
            }

            auto &metadata = metadataList[index];
            if (!metadata[0] ||
                GenerationWithoutIdentifier(metadata.generation) != GenerationWithoutIdentifier(generation)) {''')],
 r'''
struct A { int v = 0; A() {} A(int v) : v(v) {} };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld one, two;
    Entity a, b;
    { auto l = one.StartTransaction<AddRemove>(); a = l.NewEntity(); a.Set<A>(l, 1); }
    { auto l = two.StartTransaction<AddRemove>(); b = l.NewEntity(); b.Set<A>(l, 1); }
    bool thrown = false;
    { auto l = two.StartTransaction<Write<A>>(); try { a.Set<A>(l, 7); } catch (const std::runtime_error &) { thrown = true; } }
    check(thrown, "an entity of another instance was accepted");
    { auto l = two.StartTransaction<Read<A>>(); check(b.Get<A>(l).v == 1, "another entity was changed"); }
}
''')

seed("c19-subset-view", "C19", "a lock derived from an AddRemove lock asked about an entity created in the same transaction",
 "A derived lock forgets that its transaction may add and remove, so it shows the state before the transaction.",
 [(LK, '''            : instance(source.instance), base(source.base), permissions(source.permissions) {}

        inline constexpr''', '''            : instance(source.instance), base(source.base), permissions(source.permissions) {
            // A lock never has more permissions than its type
            permissions[0] = is_add_remove_allowed<LockType>();
        }

        inline constexpr''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    auto l = ecs.StartTransaction<AddRemove>();
    Entity e = l.NewEntity();
    e.Set<A>(l, A{5});
    Lock<Wld, Write<A>> w = l;
    check(e.Exists(w), "a new entity is invisible through a derived lock");
    check(e.Has<A>(w), "a new component is invisible through a derived lock");
    check(e.Get<A>(w).v == 5, "value");
    check(w.EntitiesWith<A>().size() == 1, "list");
}
''')

seed("c02-release-twice", "C02", "a transaction that may write two components, changes one, and is slow to commit it while others write the unchanged one",
 "Write access that was given back early because nothing was written is given back again at the end, which frees another writer's access.",
 [(TX, '''                        // Skip if no write accesses were made
                        if (!this->instance.template BitsetHas<AllComponentTypes>(this->writeAccessedFlags)) return;
                        auto &storage = this->instance.template Storage<AllComponentTypes>();

                        if constexpr (is_global''', '''                        auto &storage = this->instance.template Storage<AllComponentTypes>();
                        // Nothing to copy if no write accesses were made
                        if (!this->instance.template BitsetHas<AllComponentTypes>(this->writeAccessedFlags)) {
                            storage.WriteUnlock();
                            return;
                        }

                        if constexpr (is_global'''),
  (ST, '''            if (current != WRITER_LOCKED && current != WRITER_COMMIT) {
                throw''', '''            if (current == WRITER_FREE) {
                return; // Already released early
            } else if (current != WRITER_LOCKED && current != WRITER_COMMIT) {
                throw''')],
 r'''
struct A { int v = 0; };
struct B { int v = 0; };
using Wld = Tecs::ECS<A, B>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Entity e;
    { auto l = ecs.StartTransaction<AddRemove>(); e = l.NewEntity(); e.Set<A>(l, A{1}); e.Set<B>(l, B{1}); }
    std::atomic<int> step{0};
    std::atomic_bool second{false};
    std::thread r([&] { auto l = ecs.StartTransaction<Read<B>>(); step = 1; while (step < 3) sleepMs(1); });
    waitFor([&] { return step == 1; }, "reader did not start");
    std::thread t1([&] { auto l = ecs.StartTransaction<Write<A, B>>(); e.Get<B>(l).v = 2; step = 2; });
    waitFor([&] { return step == 2; }, "first writer did not start");
    sleepMs(200); // it waits for the reader now, having given back A
    std::atomic_bool holding{false}, release{false};
    std::thread t2([&] { auto l = ecs.StartTransaction<Write<A>>(); holding = true; while (!release) sleepMs(1); });
    waitFor([&] { return holding.load(); }, "second writer did not start");
    step = 3;
    t1.join(); r.join();
    std::thread t3([&] { auto l = ecs.StartTransaction<Write<A>>(); second = true; });
    sleepMs(300);
    check(!second, "two transactions hold write access to A");
    release = true;
    t2.join(); t3.join();
}
''')

seed("c07-last-one-blocks", "C07", "two transactions that are refused in opposite order, so that each waits for its last component while holding the other's",
 "A starting transaction waits for its last missing lock while it holds all the others.",
 [(TX, "if (lockFuncs[i](acquired.none())) {", "// Not worth a rollback if this is the only lock that is missing\n                    if (lockFuncs[i](acquired.none() || acquired.count() + 1 == acquired.size())) {")],
 r'''
struct A { int v = 0; };
struct B { int v = 0; };
using Wld = Tecs::ECS<A, B>;
using namespace Tecs;
int main() {
    static Wld ecs;
    std::atomic<int> ended{0};
    std::vector<std::thread> ts;
    for (int k = 0; k < 6; k++) ts.emplace_back([&, k] {
        for (int i = 0; i < 20000; i++) {
            if (k % 3 == 0) { auto l = ecs.StartTransaction<Write<A, B>>(); }
            else if (k % 3 == 1) { auto l = ecs.StartTransaction<Write<A>>(); }
            else { auto l = ecs.StartTransaction<Write<B>, AddRemove>(); }
        }
        ended++;
    });
    waitFor([&] { return ended == 6; }, "starting transactions deadlocked", 60000);
    for (auto &t : ts) t.join();
}
''')

seed("c08-global-unlocked", "C08", "a reader of a global component while another transaction commits it",
 "Read access to global components is neither taken nor returned.",
 [(TX, '''                    } else if (is_read_allowed<AllComponentTypes, LockType>()) {
                        return instance.template Storage<AllComponentTypes>().ReadLock(block);
                    }''', '''                    } else if (is_read_allowed<AllComponentTypes, LockType>() &&
                               !is_global_component<AllComponentTypes>()) {
                        return instance.template Storage<AllComponentTypes>().ReadLock(block);
                    }'''),
  (TX, '''                    } else if (is_read_allowed<AllComponentTypes, LockType>()) {
                        instance.template Storage<AllComponentTypes>().ReadUnlock();
                    }
                    // This''', '''                    } else if (is_read_allowed<AllComponentTypes, LockType>() &&
                               !is_global_component<AllComponentTypes>()) {
                        instance.template Storage<AllComponentTypes>().ReadUnlock();
                    }
                    // This'''),
  (TX, '''                    } else if constexpr (is_read_allowed<AllComponentTypes, LockType>()) {
                        this->instance.template Storage<AllComponentTypes>().ReadUnlock();
                    }''', '''                    } else if constexpr (is_read_allowed<AllComponentTypes, LockType>() &&
                                         !is_global_component<AllComponentTypes>()) {
                        this->instance.template Storage<AllComponentTypes>().ReadUnlock();
                    }''')],
 r'''
struct A { int v = 0; };
struct G { int v = 0; };
template<> struct Tecs::is_global_component<G> : std::true_type {};
using Wld = Tecs::ECS<A, G>;
using namespace Tecs;
int main() {
    static Wld ecs;
    { auto l = ecs.StartTransaction<AddRemove>(); l.Set<G>(G{1}); }
    std::atomic_bool started{false}, release{false}, committed{false};
    std::thread r([&] { auto l = ecs.StartTransaction<Read<G>>(); started = true; while (!release) sleepMs(1); });
    waitFor([&] { return started.load(); }, "reader did not start");
    std::thread w([&] { { auto l = ecs.StartTransaction<Write<G>>(); l.Get<G>().v = 2; } committed = true; });
    sleepMs(300);
    check(!committed, "a global component was committed under a reader");
    release = true;
    r.join(); w.join();
}
''')

seed("c09-globals-late", "C09", "two transactions that each write the global component which the other reads, committing at the same time",
 "Read access to global components is given back only after the commit locks were taken.",
 [(TX, '''                    } else if constexpr (is_read_allowed<AllComponentTypes, LockType>()) {
                        this->instance.template Storage<AllComponentTypes>().ReadUnlock();
                    }
                }(),
                ...);

            { // Acquire''', '''                    } else if constexpr (is_read_allowed<AllComponentTypes, LockType>() &&
                                         !is_global_component<AllComponentTypes>()) {
                        this->instance.template Storage<AllComponentTypes>().ReadUnlock();
                    }
                }(),
                ...);

            { // Acquire'''),
  (TX, '''            ( // For each AllComponentTypes, reset the write storage to match read.
                [&] {
''', '''            ( // For each AllComponentTypes, reset the write storage to match read.
                [&] {
                    if constexpr (is_read_allowed<AllComponentTypes, LockType>() &&
                                  !is_write_allowed<AllComponentTypes, LockType>() &&
                                  is_global_component<AllComponentTypes>()) {
                        this->instance.template Storage<AllComponentTypes>().ReadUnlock();
                    }
''')],
 r'''
struct G { int v = 0; };
struct H { int v = 0; };
template<> struct Tecs::is_global_component<G> : std::true_type {};
template<> struct Tecs::is_global_component<H> : std::true_type {};
using Wld = Tecs::ECS<G, H>;
using namespace Tecs;
int main() {
    static Wld ecs;
    { auto l = ecs.StartTransaction<AddRemove>(); l.Set<G>(G{1}); l.Set<H>(H{1}); }
    std::atomic<int> started{0}, ended{0};
    std::thread t1([&] { auto l = ecs.StartTransaction<Read<G>, Write<H>>(); l.Get<H>().v = 2; started++; while (started < 2) sleepMs(1); });
    std::thread t2([&] { auto l = ecs.StartTransaction<Read<H>, Write<G>>(); l.Get<G>().v = 2; started++; while (started < 2) sleepMs(1); });
    std::thread j([&] { t1.join(); t2.join(); ended = 1; });
    waitFor([&] { return ended == 1; }, "two commits deadlocked", 10000);
    j.join();
}
''')
