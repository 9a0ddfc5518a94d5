seed("c20-set-args-index", "C20", "two entities given a component through Set(args...) in one transaction, the component then removed from the second",
 "Set with constructor arguments does not record where in the list the entity is, so a later removal blanks another entity's entry.",
 [(EN, '''                    auto &validEntities = lock.instance.template Storage<T>().writeValidEntities;
                    lock.instance.template Storage<T>().validEntityIndexes[index] = validEntities.size();
                    validEntities.emplace_back(*this);
                }
#ifndef TECS_UNCHECKED_MODE
            } else if (!lock.instance.template BitsetHas<T>(metadata)) {
                throw std::runtime_error("Entity does not have a component of type: " + std::string(typeid(T).name()));
#endif
            }
            return lock.instance.template Storage<T>().writeComponents[index] = T(std::forward<Args>(args)...);''',
'''                    lock.instance.template Storage<T>().writeValidEntities.emplace_back(*this);
                }
#ifndef TECS_UNCHECKED_MODE
            } else if (!lock.instance.template BitsetHas<T>(metadata)) {
                throw std::runtime_error("Entity does not have a component of type: " + std::string(typeid(T).name()));
#endif
            }
            return lock.instance.template Storage<T>().writeComponents[index] = T(std::forward<Args>(args)...);''')],
 r'''
struct A { int v = 0; A() {} A(int v) : v(v) {} };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    auto l = ecs.StartTransaction<AddRemove>();
    Entity a = l.NewEntity(), b = l.NewEntity(), c = l.NewEntity();
    a.Set<A>(l, 1); b.Set<A>(l, 2); c.Set<A>(l, 3);
    b.Unset<A>(l);
    int na = 0, nb = 0, nc = 0;
    for (auto &e : l.EntitiesWith<A>()) { na += e == a; nb += e == b; nc += e == c; }
    check(na == 1 && nc == 1, "an entity with the component is not listed");
    check(nb == 0, "an entity without the component is listed");
}
''')

seed("c21-keep-value", "C21", "removing a component that owns something (memory, a handle) and watching when it is let go",
 "Removing a component leaves its value in the storage, so what it owns stays alive.",
 [(LK, '''                    compIndex.writeComponents[index] = {};
''', '''                    // The value is reset when the component is next added
''')],
 r'''
struct A { std::shared_ptr<int> p; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    auto owner = std::make_shared<int>(1);
    std::weak_ptr<int> weak = owner;
    Entity e;
    { auto l = ecs.StartTransaction<AddRemove>(); e = l.NewEntity(); e.Set<A>(l, A{owner}); }
    owner.reset();
    check(!weak.expired(), "owned by the component");
    { auto l = ecs.StartTransaction<AddRemove>(); e.Unset<A>(l); }
    { auto l = ecs.StartTransaction<AddRemove>(); l.NewEntity(); }
    check(weak.expired(), "a removed component still holds its value");
}
''')

seed("c22-skip-list-swap", "C22", "a transaction that removes a component from one entity and adds it to another",
 "The list of entities with a component is not published when its length stayed the same.",
 [(TX, '''                                if (this->writeAccessedFlags[0]) {
                                    storage.readValidEntities.swap''', '''                                if (this->writeAccessedFlags[0] &&
                                    storage.readValidEntities.size() != storage.writeValidEntities.size()) {
                                    storage.readValidEntities.swap''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Entity a, b;
    { auto l = ecs.StartTransaction<AddRemove>(); a = l.NewEntity(); b = l.NewEntity(); a.Set<A>(l, A{1}); }
    { auto l = ecs.StartTransaction<AddRemove>(); a.Unset<A>(l); b.Set<A>(l, A{2}); }
    { auto l = ecs.StartTransaction<Read<A>>(); auto v = l.EntitiesWith<A>(); check(v.size() == 1 && v[0] == b, "the published list does not match"); }
}
''')

seed("c24-unwatched-queue", "C24", "changes committed while nobody watches, a later observer, and one more commit",
 "Events of commits that nobody observed stay in the queue and are delivered to an observer added later.",
 [(MN, '''                for (auto &observer : observers) {
                    observer->insert''', '''                if (observers.empty()) return;
                for (auto &observer : observers) {
                    observer->insert''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Observer<Wld, EntityEvent> obs;
    Entity a, b;
    { auto l = ecs.StartTransaction<AddRemove>(); a = l.NewEntity(); }
    { auto l = ecs.StartTransaction<AddRemove>(); obs = l.Watch<EntityEvent>(); }
    { auto l = ecs.StartTransaction<AddRemove>(); b = l.NewEntity(); }
    { auto l = ecs.StartTransaction<>(); EntityEvent ev; check(obs.Poll(l, ev) && ev.entity == b, "an old event was delivered"); check(!obs.Poll(l, ev), "one event"); }
}
''')

seed("c24-shared-observer", "C24", "two observers of the same events, polled in turn",
 "Watching the same kind of event twice hands out the same queue, so each event reaches only one of the observers.",
 [(LK, '''            auto &eventList = observerList.observers.emplace_back(std::make_shared<std::deque<Event>>());
''', '''            auto &eventList = observerList.observers.empty() || !observerList.observers.back()->empty()
                                  ? observerList.observers.emplace_back(std::make_shared<std::deque<Event>>())
                                  : observerList.observers.back();
''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Observer<Wld, EntityEvent> o1, o2;
    { auto l = ecs.StartTransaction<AddRemove>(); o1 = l.Watch<EntityEvent>(); }
    { auto l = ecs.StartTransaction<AddRemove>(); o2 = l.Watch<EntityEvent>(); }
    { auto l = ecs.StartTransaction<AddRemove>(); l.NewEntity(); }
    auto l = ecs.StartTransaction<>();
    EntityEvent ev;
    check(o1.Poll(l, ev) && !o1.Poll(l, ev), "first observer");
    check(o2.Poll(l, ev) && !o2.Poll(l, ev), "second observer");
}
''')

seed("c25-lifo-assumption", "C25", "transactions on two instances that end in the order they started, then another start",
 "The end of a transaction drops the newest entry of the thread's list instead of its own.",
 [(TX, '''            auto start = activeTransactions.begin();
            activeTransactionsCount = std::remove(start, start + activeTransactionsCount, instance.ecsId) - start;
''', '''            // Transactions end in reverse order
            activeTransactionsCount--;
''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld one, two;
    auto a = std::make_unique<Lock<Wld, Read<A>>>(one.StartTransaction<Read<A>>());
    auto b = std::make_unique<Lock<Wld, Read<A>>>(two.StartTransaction<Read<A>>());
    a.reset();
    bool thrown = false;
    try { auto c = two.StartTransaction<Read<A>>(); } catch (const std::runtime_error &) { thrown = true; }
    check(thrown, "a nested transaction was not detected");
    try { auto c = one.StartTransaction<Read<A>>(); } catch (const std::runtime_error &) { fail("not nested, but refused"); }
}
''')

seed("c27-window-index", "C27", "operator[] of a view that does not start at the beginning of its list",
 "The bound of EntityView::operator[] ignores where the window starts.",
 [(VW, '''            if (index < start_index || index >= end_index) {
                throw std::runtime_error("EntityView index out of range''', '''            if (index >= storage->size() || index >= end_index) {
                throw std::runtime_error("EntityView index out of range''')],
 r'''
using namespace Tecs;
int main() {
    std::vector<Entity> list;
    for (unsigned i = 0; i < 6; i++) list.emplace_back(i, 1);
    EntityView v(list, 2, 4);
    check(v[2] == list[2] && v[3] == list[3], "inside");
    bool thrown = false;
    try { (void)v[1]; } catch (const std::runtime_error &) { thrown = true; }
    check(thrown, "an entity outside of the window was returned");
}
''')

seed("c27-equal-views", "C27", "iterating a sub-view of a list with an end iterator of another view of the same list",
 "Two iterators compare equal only if they come from the same view object, so loops over copies of a view never meet their end.",
 [(VW, "return view.storage == other.view.storage && i == other.i;", "return &view == &other.view && i == other.i;"),
  (VW, "return view.storage != other.view.storage || i != other.i;", "return &view != &other.view || i != other.i;")],
 r'''
using namespace Tecs;
int main() {
    std::vector<Entity> list;
    for (unsigned i = 0; i < 6; i++) list.emplace_back(i, 1);
    EntityView v(list), part = v.subview(2, 2), same = v.subview(2, 2);
    auto it = part.begin();
    check(it == same.begin(), "same place");
    int n = 0;
    for (; it != same.end(); ++it) { if (++n > 2) fail("iteration runs past its end"); }
    check(n == 2, "count");
}
''')

seed("c28-order-generation", "C28", "ordering of ids with the same generation part and different instance, or generations whose high bits differ",
 "Ordering ignores the instance part of the generation, so different ids are neither less nor greater.",
 [(EN, "return (index == other.index) ? (generation < other.generation) : (index < other.index);",
  "return (index == other.index) ? (GenerationWithoutIdentifier(generation) < GenerationWithoutIdentifier(other.generation))\n                                          : (index < other.index);")],
 r'''
#include <set>
using namespace Tecs;
int main() {
    Entity a(3, 1, 1), b(3, 1, 2);
    check(a != b, "different ids");
    check(a < b || b < a, "different ids are unordered");
    std::set<Entity> s{a, b};
    check(s.size() == 2, "a set lost an id");
}
''')

seed("c28-narrow-ids", "C28", "a build configured with entity ids of less than 64 bits",
 "The conversion to a number puts the generation at a fixed position, where the conversion back does not look for it.",
 [(EN, "return (((uint64_t)generation) << (sizeof(TECS_ENTITY_INDEX_TYPE) * 8)) | (uint64_t)index;",
       "return (((uint64_t)generation) << 32) | (uint64_t)index;")],
 r'''
using namespace Tecs;
int main() {
    Entity a(77, 5, 2);
    check(Entity((uint64_t)a) == a, "round trip");
}
''', flags="-O1 -DTECS_ENTITY_INDEX_TYPE=uint16_t -DTECS_ENTITY_GENERATION_TYPE=uint16_t")

seed("c29-trace-bound", "C29", "exactly one more trace event than the buffer holds",
 "The event after the last slot of the trace buffer is written out of bounds.",
 [(TR, "if (index < events.size()) {", "if (index <= events.size()) {")],
 r'''
using namespace Tecs;
int main() {
    TraceInfo t;
    t.StartTrace();
    for (int i = 0; i < 9; i++) t.Trace(TraceEvent::Type::ReadLock);
    check(t.StopTrace().size() == 8, "more events than recorded");
}
''', flags="-O1 -g -fsanitize=address -DTECS_ENABLE_PERFORMANCE_TRACING -DTECS_PERFORMANCE_TRACING_MAX_EVENTS=8")

seed("c29-csv-columns", "C29", "saving a trace in which one table has fewer events than another",
 "A row without a metadata event has one column less than the header.",
 [(TR, '''                } else {
                    out << ",,,";
                }

                for''', '''                } else {
                    out << ",,";
                }

                for''')],
 r'''
#include <sstream>
#include <algorithm>
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
int main() {
    static Wld ecs;
    ecs.StartTrace();
    for (int i = 0; i < 3; i++) { auto l = ecs.StartTransaction<Tecs::Read<A>>(); }
    auto trace = ecs.StopTrace();
    std::stringstream ss;
    trace.SaveToCSV(ss);
    std::string line;
    long cols = -1;
    while (std::getline(ss, line)) {
        long n = std::count(line.begin(), line.end(), ',');
        if (cols < 0) cols = n;
        check(n == cols, "a row has another number of columns than the header");
    }
}
''', flags="-O1 -DTECS_ENABLE_PERFORMANCE_TRACING")

seed("c29-wait-kind", "C29", "a traced commit that has to wait for readers",
 "A commit that waits for readers is recorded as a reader waiting.",
 [(TR, '''            "CommitLockWait",
            "CommitLock",''', '''            "CommitLock",
            "CommitLockWait",''')],
 r'''
#include <sstream>
int main() {
    auto name = [](Tecs::TraceEvent::Type t) { std::stringstream ss; ss << t; return ss.str(); };
    check(name(Tecs::TraceEvent::Type::CommitLockWait) == "CommitLockWait", "name of CommitLockWait");
    check(name(Tecs::TraceEvent::Type::CommitLock) == "CommitLock", "name of CommitLock");
}
''', flags="-O1 -DTECS_ENABLE_PERFORMANCE_TRACING")

seed("c31-global-unset", "C31", "a global component removed, then looked for in a later transaction of a reader of the value",
 "Removing a global component does not count as a change of its value, so the old value stays and the swap brings it back.",
 [(LK, '''                base->writeAccessedFlags[0] = true;
                base->template SetAccessFlag<T>(true);

                metadata[1 + instance.template GetComponentIndex<T>()] = false;
                instance.template''', '''                base->writeAccessedFlags[0] = true;

                metadata[1 + instance.template GetComponentIndex<T>()] = false;
                instance.template''')],
 r'''
struct G { std::shared_ptr<int> p; };
TECS_GLOBAL_COMPONENT(G);
using Wld = Tecs::ECS<G>;
using namespace Tecs;
int main() {
    static Wld ecs;
    auto owner = std::make_shared<int>(1);
    std::weak_ptr<int> weak = owner;
    { auto l = ecs.StartTransaction<AddRemove>(); l.Set<G>(G{owner}); }
    owner.reset();
    { auto l = ecs.StartTransaction<AddRemove>(); l.Unset<G>(); }
    { auto l = ecs.StartTransaction<Read<G>>(); check(!l.Has<G>(), "removed"); }
    check(weak.expired(), "a removed global component keeps its value");
}
''')

seed("c32-unchecked-flag", "C32", "a change through Set(args...) on an existing component, in a build without run-time checks",
 "Without run-time checks, setting an existing global component does not mark the change, so it is never committed.",
 [(LK, '''        inline T &Set(Args &&...args) const {
            static_assert(is_write_allowed<T, LockType>(), "Component is not locked for writing.");
            static_assert(is_global_component<T>(), "Only global components can be accessed without an Entity");
            base->template SetAccessFlag<T>(true);

#ifndef TECS_UNCHECKED_MODE
''', '''        inline T &Set(Args &&...args) const {
            static_assert(is_write_allowed<T, LockType>(), "Component is not locked for writing.");
            static_assert(is_global_component<T>(), "Only global components can be accessed without an Entity");

#ifndef TECS_UNCHECKED_MODE
            base->template SetAccessFlag<T>(true);
'''),
  (LK, '''                    metadata[1 + instance.template GetComponentIndex<T>()] = true;
                    instance.template Storage<T>().writeComponents.resize(1);
                }
#ifndef TECS_UNCHECKED_MODE
            } else if (!instance.template BitsetHas<T>(metadata)) {
                throw std::runtime_error("Missing global component of type: " + std::string(typeid(T).name()));
#endif
            }
            return instance.template Storage<T>().writeComponents[0] = T(std::forward''', '''                    base->template SetAccessFlag<T>(true);
                    metadata[1 + instance.template GetComponentIndex<T>()] = true;
                    instance.template Storage<T>().writeComponents.resize(1);
                }
#ifndef TECS_UNCHECKED_MODE
            } else if (!instance.template BitsetHas<T>(metadata)) {
                throw std::runtime_error("Missing global component of type: " + std::string(typeid(T).name()));
#endif
            }
            return instance.template Storage<T>().writeComponents[0] = T(std::forward''')],
 r'''
struct G { int v = 0; G() {} G(int v) : v(v) {} };
TECS_GLOBAL_COMPONENT(G);
using Wld = Tecs::ECS<G>;
using namespace Tecs;
int main() {
    static Wld ecs;
    { auto l = ecs.StartTransaction<AddRemove>(); l.Set<G>(1); }
    { auto l = ecs.StartTransaction<Write<G>>(); l.Set<G>(2); }
    { auto l = ecs.StartTransaction<Read<G>>(); check(l.Get<G>().v == 2, "a change was lost without run-time checks"); }
}
''', flags="-O1 -DTECS_UNCHECKED_MODE")

seed("c33-split-increment", "C33", "two threads starting transactions at the same moment",
 "The id of a transaction is taken with separate load and increment, so two threads can get the same one.",
 [(TX, "transactionId = ++nextTransactionId;", "nextTransactionId++;\n            transactionId = nextTransactionId;")],
 r'''
#include <algorithm>
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
int main() {
    static Wld ecs[4];
    const int N = 200000;
    std::vector<size_t> ids[4];
    std::atomic<int> ready{0};
    std::vector<std::thread> ts;
    for (int t = 0; t < 4; t++) ts.emplace_back([&, t] {
        ids[t].reserve(N); ready++; while (ready < 4) {}
        for (int i = 0; i < N; i++) { auto l = ecs[t].StartTransaction<>(); ids[t].push_back(l.GetTransactionId()); }
    });
    for (auto &t : ts) t.join();
    std::vector<size_t> all;
    for (auto &v : ids) all.insert(all.end(), v.begin(), v.end());
    std::sort(all.begin(), all.end());
    check(std::adjacent_find(all.begin(), all.end()) == all.end(), "two transactions have the same id");
}
''', flags="-O2")

seed("c34-readonly-detached", "C34", "a read-only subset kept longer than the lock it was made from",
 "A read-only subset does not keep its transaction alive.",
 [(LK, "return NewLockType(this->instance, this->base, {});", "// Read only locks never set access flags, so they don't need the transaction\n            return NewLockType(this->instance, nullptr, {});")],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Entity e;
    { auto l = ecs.StartTransaction<AddRemove>(); e = l.NewEntity(); e.Set<A>(l, A{1}); }
    auto l = std::make_unique<Lock<Wld, Write<A>>>(ecs.StartTransaction<Write<A>>());
    auto ro = l->ReadOnlySubset();
    l.reset();
    bool nested = false;
    try { auto again = ecs.StartTransaction<Write<A>>(); } catch (const std::runtime_error &) { nested = true; }
    check(nested, "the transaction ended although a lock refers to it");
}
''')

seed("c34-trylock-noown", "C34", "a lock obtained from a run-time request that outlives the dynamic lock",
 "A lock obtained by a run-time request of static permissions does not share the transaction.",
 [(LK, '''                return DynamicLockType(this->instance, this->base, this->permissions);
            } else {''', '''                // The dynamic lock already holds the transaction
                return DynamicLockType(this->instance, {std::shared_ptr<void>(), this->base.get()}, this->permissions);
            } else {''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    auto l = std::make_unique<Lock<Wld, Write<A>>>(ecs.StartTransaction<Write<A>>());
    auto d = std::make_unique<DynamicLock<Wld, Write<A>>>(*l);
    auto t = d->TryLock<Write<A>>();
    check(t.has_value(), "request");
    d.reset(); l.reset();
    bool nested = false;
    try { auto again = ecs.StartTransaction<Write<A>>(); } catch (const std::runtime_error &) { nested = true; }
    check(nested, "the transaction ended although a lock refers to it");
}
''')

seed("c14-global-look", "C14", "a transaction that may write a global component but only looks at it, while a reader of it is active",
 "Looking at a global component through a lock that could write it counts as a change and makes the transaction commit.",
 [(LK, "if (!std::is_const<ReturnType>()) base->template SetAccessFlag<CompType>(true);",
       "if (is_write_allowed<CompType, LockType>()) base->template SetAccessFlag<CompType>(true);")],
 r'''
struct G { int v = 0; };
template<> struct Tecs::is_global_component<G> : std::true_type {};
using Wld = Tecs::ECS<G>;
using namespace Tecs;
int main() {
    static Wld ecs;
    { auto l = ecs.StartTransaction<AddRemove>(); l.Set<G>(G{1}); }
    std::atomic<int> step{0};
    std::atomic_bool ended{false};
    std::thread r([&] { auto l = ecs.StartTransaction<Read<G>>(); step = 1; while (step < 2) sleepMs(1); });
    while (step < 1) sleepMs(1);
    std::thread w([&] { { auto l = ecs.StartTransaction<Write<G>>(); check(l.Get<const G>().v == 1, "value"); } ended = true; });
    waitFor([&] { return ended.load(); }, "a transaction that changed nothing waits for a reader", 4000);
    step = 2;
    r.join(); w.join();
}
''')

seed("c18-early-recycle", "C18", "a transaction that destroys an entity and then creates more than the free list held before",
 "The slot of a destroyed entity is put on the free list at once, so its index is issued again before the destruction is committed.",
 [(EN, '''            size_t validIndex = lock.instance.metadata.validEntityIndexes[copy];
            lock.instance.metadata.writeValidEntities[validIndex] = Entity();''', '''            // Make the slot available to new entities
            lock.instance.freeEntities.emplace_back((TECS_ENTITY_INDEX_TYPE)copy,
                lock.instance.metadata.writeComponents[copy].generation + 1,
                (TECS_ENTITY_ECS_IDENTIFIER_TYPE)lock.instance.ecsId);
            size_t validIndex = lock.instance.metadata.validEntityIndexes[copy];
            lock.instance.metadata.writeValidEntities[validIndex] = Entity();''')],
 r'''
struct A { int v = 0; };
using Wld = Tecs::ECS<A>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Entity e;
    { auto l = ecs.StartTransaction<AddRemove>(); e = l.NewEntity(); e.Set<A>(l, A{1}); }
    auto l = ecs.StartTransaction<AddRemove>();
    auto index = e.index;
    e.Destroy(l);
    for (int i = 0; i < 1500; i++) check(l.NewEntity().index != index, "a slot was issued again before its destruction was committed");
}
''')

seed("c26-tag-storage", "C26", "a component type without data members",
 "Tables of components without data are not grown, so entities have no slot in them.",
 [(LK, '''                instance.template Storage<T>().writeComponents.resize(newSize);
                instance.template Storage<T>().validEntityIndexes.resize(newSize);''', '''                if constexpr (!std::is_empty<T>()) instance.template Storage<T>().writeComponents.resize(newSize);
                instance.template Storage<T>().validEntityIndexes.resize(newSize);''')],
 r'''
struct A { int v = 0; };
struct Tag {};
using Wld = Tecs::ECS<A, Tag>;
using namespace Tecs;
int main() {
    static Wld ecs;
    Entity e;
    { auto l = ecs.StartTransaction<AddRemove>(); e = l.NewEntity(); e.Set<Tag>(l, Tag{}); }
    auto l = ecs.StartTransaction<Read<Tag>>();
    const Tag &t = e.Get<Tag>(l);
    (void)t;
    check(e.Has<Tag>(l) && (uintptr_t)&t > 4096, "no storage for the component");
}
''', flags="-O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS")
