seed("c05-join-readers", "C05", "several readers that hold up a commit while more readers arrive",
 "A reader is admitted while other readers are present even though a commit has begun, so overlapping readers can hold up a commit for ever.",
 [(ST, '''                if (currentReaders != READER_LOCKED && currentWriter != WRITER_COMMIT) {''',
  '''                // One more among several readers does not disturb anyone
                bool shared = currentReaders > 2 && currentReaders != READER_LOCKED;
                if (currentReaders != READER_LOCKED && (shared || currentWriter != WRITER_COMMIT)) {''')],
 r'''
static Tecs::ComponentIndex<int> ci;
int main() {
    for (int i = 0; i < 3; i++) ci.ReadLock();
    std::atomic<bool> done{false};
    std::thread w([&] { ci.WriteLock(); ci.CommitLock(); ci.CommitUnlock(); ci.WriteUnlock(); done = true; });
    // the commit begins some time soon; from then on every new reader is refused
    bool refused = false;
    for (int i = 0; i < 2000 && !refused; i++) {
        if (ci.ReadLock(false)) { ci.ReadUnlock(); sleepMs(1); } else refused = true;
    }
    bool early = done;
    for (int i = 0; i < 3; i++) ci.ReadUnlock();
    w.join();
    check(!early, "committed while being read");
    check(refused, "readers are admitted while a commit waits");
}
''')

seed("c23-destroyed-silent", "C23", "an observer of one component of an entity that has several and is destroyed",
 "No removed events are queued for the components of an entity that was destroyed, except for the first component type.",
 [(TX, '''                        if (oldExists) {
                            observerList''', '''                        // The entity's own removal was already reported
                        bool reported = !newMetadata[0] && this->instance.template GetComponentIndex<U>() > 1;
                        if (oldExists && !reported) {
                            observerList''')],
 r'''
struct A { int v = 0; };
struct B { int v = 0; };
struct C { int v = 0; };
using Wld = Tecs::ECS<A, B, C>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Observer<Wld, ComponentEvent<C>> o;
    Entity e;
    { auto l = ecs.StartTransaction<AddRemove>(); o = l.Watch<ComponentEvent<C>>(); e = l.NewEntity(); e.Set<B>(l, B{1}); e.Set<C>(l, C{2}); }
    { auto l = ecs.StartTransaction<AddRemove>(); Entity(e).Destroy(l); }
    auto l = ecs.StartTransaction<>();
    ComponentEvent<C> ev;
    check(o.Poll(l, ev) && ev.type == EventType::ADDED && ev.component.v == 2, "added event");
    check(o.Poll(l, ev) && ev.type == EventType::REMOVED && ev.entity == e && ev.component.v == 2, "removed event");
}
''')

seed("c38-constant-dynamic-lock", "C38", "code that selects by the permissions of a constant dynamic lock type",
 "The query for write permission answers no for constant dynamic locks, so generic code silently takes its read-only branch.",
 [(PM, '''    struct is_write_allowed<T, const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_write_allowed<T, Permissions>...> {};''',
  '''    struct is_write_allowed<T, const DynamicLock<ECSType, Permissions...>> : std::conjunction<std::negation<is_read_allowed<T, Permissions>>...> {};''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
template<typename L> void update(L &lock, const Entity &e) {
    if constexpr (is_write_allowed<A, L>::value) e.Get<A>(lock).v++;
}
int main() {
    static Wld ecs;
    Entity e;
    { auto l = ecs.StartTransaction<AddRemove>(); e = l.NewEntity(); e.Set<A>(l, A{1}); }
    { auto l = ecs.StartTransaction<Write<A>>(); const DynamicLock<Wld, Write<A>> d = l; update(d, e); }
    auto l = ecs.StartTransaction<Read<A>>();
    check(e.Get<A>(l).v == 2, "the update was skipped");
}
''')

seed("c39-shared-scratch", "C39", "two threads asking for the previous state at the same moment; shown with ThreadSanitizer",
 "Had() keeps its copy of the entity's metadata in a variable shared by all threads.",
 [(EN, '''            auto &metadata = lock.instance.metadata.readComponents[index];
            return metadata[0] && metadata.generation == generation &&
                   lock.instance.template BitsetHas<Tn...>(metadata);''',
'''            // Take a snapshot so the answer is consistent
            static auto metadata = lock.instance.metadata.readComponents[index];
            metadata = lock.instance.metadata.readComponents[index];
            return metadata[0] && metadata.generation == generation &&
                   lock.instance.template BitsetHas<Tn...>(metadata);''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Entity a, b;
    { auto l = ecs.StartTransaction<AddRemove>(); a = l.NewEntity(); b = l.NewEntity(); a.Set<A>(l, A{1}); }
    std::atomic<int> ready{0};
    bool ok[2] = {true, true};
    auto ask = [&](int t, Entity e, bool want) {
        auto l = ecs.StartTransaction<Read<A>>();
        ready++;
        while (ready < 2) {}
        for (int i = 0; i < 20000; i++) if (e.Had<A>(l) != want) ok[t] = false;
    };
    std::thread x([&] { ask(0, a, true); }), y([&] { ask(1, b, false); });
    x.join(); y.join();
    check(ok[0] && ok[1], "a query got the answer of another thread's query");
}
''', flags="-O1 -g -fsanitize=thread")

seed("c30-span-17", "C30", "performance tracing in a C++17 build",
 "Stopping a trace of the whole instance uses a C++20 library facility, so builds as C++17 with tracing no longer compile.",
 [(TR, '''            return nonstd::span<TraceEvent>(events.data(), std::min(events.size(), (size_t)nextEventIndex.load()));''',
'''            auto recorded = nextEventIndex.load();
            return nonstd::span<TraceEvent>(events.data(), std::cmp_less(recorded, events.size()) ? (size_t)recorded : events.size());''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    ecs.StartTrace();
    { auto l = ecs.StartTransaction<Read<A>>(); }
    auto t = ecs.StopTrace();
    check(t.transactionEvents.size() == 2, "events");
}
''', std="c++17", flags="-O1 -DTECS_ENABLE_PERFORMANCE_TRACING")
