#!/usr/bin/env python3
"""Development aid: behaviour-preserving rewrites of Tecs. Every check has to stay quiet on them.
refactors.py [-j N] [-b] [name...]   (-b: also build and run the test suite with the rewrite)"""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ST, TX, LK, EN, OB, EC, VW, PM, TR = ("inc/Tecs_storage.hh", "inc/Tecs_transaction.hh", "inc/Tecs_lock.hh", "inc/Tecs_entity.hh",
                                      "inc/Tecs_observer.hh", "inc/Tecs.hh", "inc/Tecs_entity_view.hh", "inc/Tecs_permissions.hh", "inc/Tecs_tracing.hh")
REF = {}


def ref(name, *edits):
    REF[name] = edits


def body(text, start, end):
    """the text from start up to (not including) end"""
    i = text.index(start)
    return text[i:text.index(end, i + len(start))]


def between(start, end, new):
    """replace everything from start up to end"""
    def f(s):
        b = body(s, start, end)
        return s.replace(b, new, 1)
    return f


def suball(old, new):
    def f(s):
        assert old in s, old
        return s.replace(old, new)
    return f


# ---------------------------------------------------------------- storage
ref("st-try-helpers", (ST, between("        inline bool ReadLock(bool block = true) {", "        /**\n         * Unlock this Component type from a read lock.", '''        inline bool ReadLock(bool block = true) {
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
            bool tracedWait = false;
#endif
            for (int retry = 0;; retry++) {
                const uint32_t seenReaders = readers.load();
                const uint32_t seenWriter = writer.load();
                if (TryAddReader(seenReaders, seenWriter)) {
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
                    traceInfo.Trace(TraceEvent::Type::ReadLock);
#endif
                    return true;
                }
                if (!block) return false;
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
                if (!tracedWait) traceInfo.Trace(TraceEvent::Type::ReadLockWait);
                tracedWait = true;
#endif
                if (retry <= TECS_SPINLOCK_RETRY_YIELD) continue;
                retry = 0;
#if __cpp_lib_atomic_wait
                if (seenWriter == WRITER_COMMIT) {
                    writer.wait(seenWriter);
                } else if (seenReaders == READER_LOCKED) {
                    readers.wait(seenReaders);
                }
#else
                std::this_thread::yield();
#endif
            }
        }

    private:
        inline bool TryAddReader(uint32_t seenReaders, uint32_t seenWriter) {
            if (seenReaders == READER_LOCKED || seenWriter == WRITER_COMMIT) return false;
            return readers.compare_exchange_strong(seenReaders, seenReaders + 1, std::memory_order_acquire, std::memory_order_relaxed);
        }

    public:
''')))
ref("st-notify-helper", (ST, suball('''#if __cpp_lib_atomic_wait
            readers.notify_all();
#endif''', '''            WakeAll(readers);''')), (ST, suball('''#if __cpp_lib_atomic_wait
            writer.notify_all();
#endif''', '''            WakeAll(writer);''')), (ST, suball('''    private:
        // Lock states''', '''    private:
        static inline void WakeAll([[maybe_unused]] std::atomic_uint32_t &word) {
#if __cpp_lib_atomic_wait
            word.notify_all();
#endif
        }

        // Lock states''')))
ref("st-release-helper", (ST, suball('''            uint32_t current = readers;
            if (current != READER_LOCKED) {
                throw std::runtime_error("CommitUnlock called outside of CommitLock");
            } else if (!readers.compare_exchange_strong(current, READER_FREE, std::memory_order_release)) {
                throw std::runtime_error("CommitUnlock readers changed unexpectedly");
            }
#if __cpp_lib_atomic_wait
            readers.notify_all();
#endif

            current = writer;
            if (current != WRITER_COMMIT) {
                throw std::runtime_error("CommitUnlock called outside of CommitLock");
            } else if (!writer.compare_exchange_strong(current, WRITER_LOCKED, std::memory_order_release)) {
                throw std::runtime_error("CommitUnlock writer changed unexpectedly");
            }
#if __cpp_lib_atomic_wait
            writer.notify_all();
#endif''', '''            Release(readers, READER_LOCKED, READER_FREE);
            Release(writer, WRITER_COMMIT, WRITER_LOCKED);''')), (ST, suball('''    private:
        // Lock states''', '''    private:
        static void Release(std::atomic_uint32_t &word, uint32_t from, uint32_t to) {
            if (!word.compare_exchange_strong(from, to, std::memory_order_release)) {
                throw std::runtime_error("Lock released in an unexpected state");
            }
#if __cpp_lib_atomic_wait
            word.notify_all();
#endif
        }

        // Lock states''')))
ref("st-constants", (ST, suball('''        static const uint32_t WRITER_FREE = 0;
        static const uint32_t WRITER_LOCKED = 1;
        static const uint32_t WRITER_COMMIT = 2;
        static const uint32_t READER_FREE = 0;
        static const uint32_t READER_LOCKED = UINT32_MAX;''', '''        enum WriterState : uint32_t { WRITER_FREE = 0, WRITER_LOCKED, WRITER_COMMIT };
        static constexpr uint32_t READER_FREE = 0;
        static constexpr uint32_t READER_LOCKED = std::numeric_limits<uint32_t>::max();''')), (ST, suball("#include <cstddef>", "#include <cstddef>\n#include <limits>")),
    (ST, suball("uint32_t currentReaders = readers;", "uint32_t currentReaders = readers.load(std::memory_order_seq_cst);")))
ref("st-constants-renumbered", (ST, suball("WRITER_LOCKED = 1;", "WRITER_LOCKED = 7;")), (ST, suball("WRITER_COMMIT = 2;", "WRITER_COMMIT = 9;")))
ref("st-wait-helper", (ST, suball('''                if (retry++ > TECS_SPINLOCK_RETRY_YIELD) {
                    retry = 0;
#if __cpp_lib_atomic_wait
                    if (current != WRITER_FREE) writer.wait(current);
#else
                    std::this_thread::yield();
#endif
                }''', '''                if (current == WRITER_FREE || retry++ <= TECS_SPINLOCK_RETRY_YIELD) continue;
                retry = 0;
                Sleep(writer, current);''')), (ST, suball('''    private:
        // Lock states''', '''    private:
        inline void Sleep([[maybe_unused]] const std::atomic_uint32_t &word, [[maybe_unused]] uint32_t seen) {
#if __cpp_lib_atomic_wait
            word.wait(seen);
#else
            std::this_thread::yield();
#endif
        }

        // Lock states''')))
ref("st-commit-early", (ST, suball('''                current = readers;
                if (current == READER_FREE) {
                    if (readers.compare_exchange_weak(current,
                            READER_LOCKED,
                            std::memory_order_acquire,
                            std::memory_order_relaxed)) {
                        // Lock aquired
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
                        traceInfo.Trace(TraceEvent::Type::CommitLock);
#endif
#if defined(TECS_ENABLE_TRACY) && defined(TECS_TRACY_INCLUDE_LOCKS)
                        if (runAfterLock) tracyRead.AfterLock();
#endif
                        return;
                    }
                }
''', '''                current = READER_FREE;
                if (readers.compare_exchange_strong(current, READER_LOCKED)) break;
''')), (ST, suball('''                    if (current != READER_FREE) readers.wait(current);
#else
                    std::this_thread::yield();
#endif
                }
            }
        }''', '''                    readers.wait(current);
#else
                    std::this_thread::yield();
#endif
                }
            }
#ifdef TECS_ENABLE_PERFORMANCE_TRACING
            traceInfo.Trace(TraceEvent::Type::CommitLock);
#endif
        }''')))
ref("st-readunlock-sub", (ST, suball('''            uint32_t current = readers;
            if (current == READER_FREE || current == READER_LOCKED) {
                throw std::runtime_error("ReadUnlock called outside of ReadLock");
            }
            readers.fetch_sub(1, std::memory_order_release);
#if __cpp_lib_atomic_wait
            readers.notify_all();
#endif''', '''            const uint32_t count = readers.load();
            const bool held = count != READER_FREE && count != READER_LOCKED;
            if (!held) throw std::runtime_error("ReadUnlock called outside of ReadLock");
            --readers;
#if __cpp_lib_atomic_wait
            readers.notify_all();
#endif''')))
ref("st-writelock-expected", (ST, suball('''                uint32_t current = writer;
                if (current == WRITER_FREE) {
                    if (writer.compare_exchange_weak(current,
                            WRITER_LOCKED,
                            std::memory_order_acquire,
                            std::memory_order_relaxed)) {''', '''                uint32_t current = WRITER_FREE;
                {
                    if (writer.compare_exchange_strong(current,
                            WRITER_LOCKED,
                            std::memory_order_acq_rel,
                            std::memory_order_acquire)) {''')))

# ---------------------------------------------------------------- transaction
ref("tx-static-functions", (TX, between("            std::bitset<1 + sizeof...(AllComponentTypes)> acquired;", "            // Attempt to lock all applicable", '''            std::bitset<1 + sizeof...(AllComponentTypes)> acquired;
            using LockFunc = bool (*)(ECS<AllComponentTypes...> &, bool);
            using UnlockFunc = void (*)(ECS<AllComponentTypes...> &);
            const LockFunc lockFuncs[] = {&LockMetadata, &LockComponent<AllComponentTypes>...};
            const UnlockFunc unlockFuncs[] = {&UnlockMetadata, &UnlockComponent<AllComponentTypes>...};

''')), (TX, suball("unlockFuncs[i]();", "unlockFuncs[i](instance);")), (TX, suball("lockFuncs[i](acquired.none())", "lockFuncs[i](instance, acquired.none())")),
    (TX, suball('''    private:
        inline static const EntityMetadata emptyMetadata = {};
''', '''    private:
        static bool LockMetadata(ECS<AllComponentTypes...> &ecs, bool block) {
            if constexpr (is_add_remove_allowed<LockType>()) return ecs.metadata.WriteLock(block);
            else return ecs.metadata.ReadLock(block);
        }
        static void UnlockMetadata(ECS<AllComponentTypes...> &ecs) {
            if constexpr (is_add_remove_allowed<LockType>()) ecs.metadata.WriteUnlock();
            else ecs.metadata.ReadUnlock();
        }
        template<typename U>
        static bool LockComponent(ECS<AllComponentTypes...> &ecs, [[maybe_unused]] bool block) {
            [[maybe_unused]] auto &storage = ecs.template Storage<U>();
            if constexpr (is_write_allowed<U, LockType>()) return storage.WriteLock(block);
            else if constexpr (is_read_allowed<U, LockType>()) return storage.ReadLock(block);
            else return true;
        }
        template<typename U>
        static void UnlockComponent(ECS<AllComponentTypes...> &ecs) {
            [[maybe_unused]] auto &storage = ecs.template Storage<U>();
            if constexpr (is_write_allowed<U, LockType>()) storage.WriteUnlock();
            else if constexpr (is_read_allowed<U, LockType>()) storage.ReadUnlock();
        }

        inline static const EntityMetadata emptyMetadata = {};
''')))
ref("tx-nested-loops", (TX, between("            bool rollback = false;", "            if (is_add_remove_allowed<LockType>()) {\n                // Init", '''            size_t first = 0;
            while (!acquired.all()) {
                // Nothing is held here, so it is safe to wait for the first lock.
                size_t refused = acquired.size();
                for (size_t n = 0; n < acquired.size(); n++) {
                    const size_t i = (first + n) % acquired.size();
                    if (!lockFuncs[i](n == 0)) {
                        refused = i;
                        break;
                    }
                    acquired[i] = true;
                }
                if (refused == acquired.size()) break;
                for (size_t i = 0; i < acquired.size(); i++) {
                    if (acquired[i]) unlockFuncs[i]();
                }
                acquired.reset();
                first = refused;
            }

''')))
ref("tx-split-destructor", (TX, between("            ( // For each AllComponentTypes, unlock any Noop", "            { // Acquire commit locks for all", "            (ReleaseUnused<AllComponentTypes>(), ...);\n\n")),
    (TX, suball('''    private:
        inline static const EntityMetadata emptyMetadata = {};
''', '''    private:
        template<typename U>
        inline void ReleaseUnused() {
            [[maybe_unused]] auto &storage = this->instance.template Storage<U>();
            if constexpr (is_write_allowed<U, LockType>()) {
                const bool changed = this->instance.template BitsetHas<U>(this->writeAccessedFlags);
                if (!changed) storage.WriteUnlock();
            } else if constexpr (is_read_allowed<U, LockType>()) {
                storage.ReadUnlock();
            }
        }

        inline static const EntityMetadata emptyMetadata = {};
''')))
ref("tx-split-publish", (TX, between("                ( // For each AllComponentTypes\n                    [&] {\n                        if constexpr (is_write_allowed<AllComponentTypes, LockType>()) {\n                            // Skip if no write", "                if constexpr (is_add_remove_allowed<LockType>()) {\n                    // Any transaction", "                (PublishComponent<AllComponentTypes>(), ...);\n")),
    (TX, suball('''    private:
        inline static const EntityMetadata emptyMetadata = {};
''', '''    private:
        inline bool Structural() const {
            return is_add_remove_allowed<LockType>() && this->writeAccessedFlags[0];
        }

        template<typename U>
        inline void PublishComponent() {
            if constexpr (is_write_allowed<U, LockType>()) {
                if (this->writeAccessedFlags[1 + this->instance.template GetComponentIndex<U>()]) {
                    auto &storage = this->instance.template Storage<U>();
                    std::swap(storage.readComponents, storage.writeComponents);
                    if (Structural()) std::swap(storage.readValidEntities, storage.writeValidEntities);
                    storage.CommitUnlock();
                }
            }
        }

        inline static const EntityMetadata emptyMetadata = {};
''')))
ref("tx-local-structural", (TX, suball('''            if constexpr (is_add_remove_allowed<LockType>()) {
                if (this->writeAccessedFlags[0]) {
                    PreCommitAddRemoveMetadata();
                    (PreCommitAddRemove<AllComponentTypes>(), ...);
                }
            }
''', '''            const bool structural = this->writeAccessedFlags[0];
            if constexpr (is_add_remove_allowed<LockType>()) {
                if (structural) {
                    PreCommitAddRemoveMetadata();
                    (PreCommitAddRemove<AllComponentTypes>(), ...);
                }
            }
''')), (TX, suball("if (this->writeAccessedFlags[0]) {\n                        // Commit observers", "if (structural) {\n                        // Commit observers")),
    (TX, suball("if (this->writeAccessedFlags[0]) this->instance.metadata.CommitUnlock();", "if (structural) this->instance.metadata.CommitUnlock();")),
    (TX, suball("if (this->writeAccessedFlags[0]) this->instance.metadata.CommitLock();", "if (structural) this->instance.metadata.CommitLock();")))
ref("tx-merge-reset", (TX, between("            if constexpr (is_add_remove_allowed<LockType>()) {\n                if (this->writeAccessedFlags[0]) {\n                    this->instance.metadata.writeComponents = ", "#ifdef TECS_ENABLE_PERFORMANCE_TRACING\n            TECS_EXTERNAL_TRACE_TRANSACTION_ENDED", '''            auto &entities = this->instance.metadata;
            if constexpr (is_add_remove_allowed<LockType>()) {
                if (this->writeAccessedFlags[0]) {
                    entities.writeValidEntities = entities.readValidEntities;
                    entities.writeComponents = entities.readComponents;
                }
                entities.WriteUnlock();
            } else {
                entities.ReadUnlock();
            }

''')))
ref("tx-old-metadata-helper", (TX, suball('''                const auto &oldMetadata = index >= this->instance.metadata.readComponents.size()
                                              ? emptyMetadata
                                              : this->instance.metadata.readComponents[index];
''', '''                const auto &oldMetadata = OldMetadata(index);
''')), (TX, suball('''                    const auto &oldMetadata = index >= this->instance.metadata.readComponents.size()
                                                  ? emptyMetadata
                                                  : this->instance.metadata.readComponents[index];
''', '''                    const auto &oldMetadata = OldMetadata(index);
''')), (TX, suball('''        inline static const EntityMetadata emptyMetadata = {};
''', '''        inline static const EntityMetadata emptyMetadata = {};

        inline const EntityMetadata &OldMetadata(size_t index) const {
            const auto &list = this->instance.metadata.readComponents;
            if (index < list.size()) return list[index];
            return emptyMetadata;
        }
''')))
ref("tx-two-loops", (TX, suball('''                // Compare new and old metadata to notify observers
                if (newMetadata[0] != oldMetadata[0] || newMetadata.generation != oldMetadata.generation) {
                    auto &observerList''', '''            }
            for (TECS_ENTITY_INDEX_TYPE index = 0; index < writeMetadataList.size(); index++) {
                const auto &newMetadata = writeMetadataList[index];
                const auto &oldMetadata = index >= this->instance.metadata.readComponents.size()
                                              ? emptyMetadata
                                              : this->instance.metadata.readComponents[index];
                if (newMetadata[0] != oldMetadata[0] || newMetadata.generation != oldMetadata.generation) {
                    auto &observerList''')), (TX, suball('''            for (TECS_ENTITY_INDEX_TYPE index = 0; index < writeMetadataList.size(); index++) {
                const auto &newMetadata = writeMetadataList[index];
                const auto &oldMetadata = index >= this->instance.metadata.readComponents.size()
                                              ? emptyMetadata
                                              : this->instance.metadata.readComponents[index];

                // If this index''', '''            for (TECS_ENTITY_INDEX_TYPE index = 0; index < writeMetadataList.size(); index++) {
                const auto &newMetadata = writeMetadataList[index];

                // If this index''')))
ref("tx-event-helper", (TX, suball('''                        auto &observerList = this->instance.template Observers<ComponentEvent<U>>();
                        if (oldExists) {
                            observerList.writeQueue->emplace_back(EventType::REMOVED,
                                Entity(index, oldMetadata.generation),
                                storage.readComponents[index]);
                        }
                        if (newExists) {
                            observerList.writeQueue->emplace_back(EventType::ADDED,
                                Entity(index, newMetadata.generation),
                                storage.writeComponents[index]);
                        }''', '''                        if (oldExists) {
                            QueueEvent<U>(EventType::REMOVED, Entity(index, oldMetadata.generation), storage.readComponents[index]);
                        }
                        if (newExists) {
                            QueueEvent<U>(EventType::ADDED, Entity(index, newMetadata.generation), storage.writeComponents[index]);
                        }''')), (TX, suball('''        template<typename U>
        inline void PreCommitAddRemove() const {''', '''        template<typename U>
        inline void QueueEvent(EventType type, const Entity &entity, const U &value) const {
            auto &queue = *this->instance.template Observers<ComponentEvent<U>>().writeQueue;
            queue.push_back(ComponentEvent<U>(type, entity, value));
        }

        template<typename U>
        inline void PreCommitAddRemove() const {''')))
ref("tx-continue", (TX, suball('''                    if (newExists != oldExists || newMetadata.generation != oldMetadata.generation) {
                        auto &observerList''', '''                    if (newExists == oldExists && newMetadata.generation == oldMetadata.generation) continue;
                    {
                        auto &observerList''')), (TX, suball('''                bool rollback''', '''                bool rollback''') if False else (lambda s: s)))
ref("tx-precommit-template", (TX, suball("PreCommitAddRemoveMetadata();\n                    (PreCommitAddRemove<AllComponentTypes>(), ...);", "RebuildAll();")),
    (TX, suball('''        inline void PreCommitAddRemoveMetadata() const {''', '''        inline void RebuildAll() const {
            PreCommitAddRemoveMetadata();
            (void)std::initializer_list<int>{(PreCommitAddRemove<AllComponentTypes>(), 0)...};
        }

        inline void PreCommitAddRemoveMetadata() const {''')))
ref("tx-base-helpers", (TX, suball('''            for (size_t i = 0; i < activeTransactionsCount; i++) {
                if (activeTransactions[i] == instance.ecsId)
                    throw std::runtime_error("Nested transactions are not allowed");
            }''', '''            const auto last = activeTransactions.begin() + activeTransactionsCount;
            if (std::any_of(activeTransactions.begin(), last, [&](size_t id) { return id == instance.ecsId; })) {
                throw std::runtime_error("Nested transactions are not allowed");
            }''')), (TX, suball("#include <array>", "#include <algorithm>\n#include <array>")))
ref("tx-base-remove-loop", (TX, suball('''            auto start = activeTransactions.begin();
            activeTransactionsCount = std::remove(start, start + activeTransactionsCount, instance.ecsId) - start;''', '''            size_t kept = 0;
            for (size_t i = 0; i < activeTransactionsCount; i++) {
                if (activeTransactions[i] != instance.ecsId) {
                    activeTransactions[kept] = activeTransactions[i];
                    kept++;
                }
            }
            activeTransactionsCount = kept;''')))
ref("tx-sparse-index", (TX, suball('''                                for (auto &valid : storage.readValidEntities) {
                                    storage.writeComponents[valid.index] = storage.readComponents[valid.index];
                                }''', '''                                const size_t count = storage.readValidEntities.size();
                                for (size_t i = 0; i < count; i++) {
                                    const auto index = storage.readValidEntities[i].index;
                                    storage.writeComponents[index] = storage.readComponents[index];
                                }''')))
ref("tx-commit-flag-helper", (TX, suball("this->instance.template BitsetHas<AllComponentTypes>(this->writeAccessedFlags)", "this->template Changed<AllComponentTypes>()")),
    (TX, suball('''        template<typename T>
        inline void SetAccessFlag(bool value) {''', '''        template<typename T>
        inline bool Changed() const {
            return writeAccessedFlags.test(1 + instance.template GetComponentIndex<T>());
        }

        template<typename T>
        inline void SetAccessFlag(bool value) {''')))
ref("tx-acquired-array", (TX, suball("if (acquired[i]) {", "if (acquired.test(i)) {")), (TX, suball("acquired[i] = false;", "acquired.reset(i);")), (TX, suball("acquired[i] = true;", "acquired.set(i);")))
ref("tx-events-first", (TX, suball('''                        // Commit observers
                        std::apply(
                            [](auto &...args) {
                                (args.Commit(), ...);
                            },
                            this->instance.eventLists);

                        this->instance.metadata.readComponents.swap(this->instance.metadata.writeComponents);''', '''                        this->instance.metadata.readComponents.swap(this->instance.metadata.writeComponents);
                        // Commit observers
                        std::apply([](auto &...args) { (args.Commit(), ...); }, this->instance.eventLists);
''')))

# ---------------------------------------------------------------- lock
ref("lk-ensure-helper", (LK, suball('''                if (!instance.template BitsetHas<T>(metadata)) {
                    base->writeAccessedFlags[0] = true;

                    metadata[1 + instance.template GetComponentIndex<T>()] = true;
                    instance.template Storage<T>().writeComponents.resize(1);
                }
''', '''                EnsureGlobal<T>(metadata);
''')), (LK, suball('''    private:
        template<typename T>
        inline void AllocateComponents''', '''    private:
        template<typename T, typename Bits>
        inline bool EnsureGlobal(Bits &metadata) const {
            if (instance.template BitsetHas<T>(metadata)) return false;
            base->writeAccessedFlags.set(0);
            metadata.set(1 + instance.template GetComponentIndex<T>());
            instance.template Storage<T>().writeComponents.resize(1);
            return true;
        }

        template<typename T>
        inline void AllocateComponents''')))
ref("lk-new-split", (LK, between("            Entity entity;\n", "            instance.metadata.writeComponents[entity.index][0] = true;", '''            if (instance.freeEntities.empty()) AllocateSlots();
            Entity entity = instance.freeEntities.front();
            instance.freeEntities.pop_front();

''')), (LK, suball('''    private:
        template<typename T>
        inline void AllocateComponents''', '''    private:
        inline void AllocateSlots() const {
            const size_t oldSize = instance.metadata.writeComponents.size();
            const size_t newSize = oldSize + TECS_ENTITY_ALLOCATION_BATCH_SIZE;
            (AllocateComponents<AllComponentTypes>(TECS_ENTITY_ALLOCATION_BATCH_SIZE), ...);
            if (newSize > std::numeric_limits<TECS_ENTITY_INDEX_TYPE>::max()) {
                throw std::runtime_error("New entity index overflows type: " + std::to_string(newSize));
            }
            instance.metadata.writeComponents.resize(newSize);
            instance.metadata.validEntityIndexes.resize(newSize);
            for (size_t i = oldSize; i < newSize; i++) {
                instance.freeEntities.emplace_back((TECS_ENTITY_INDEX_TYPE)i, 1, (TECS_ENTITY_ECS_IDENTIFIER_TYPE)instance.ecsId);
            }
        }

        template<typename T>
        inline void AllocateComponents''')))
ref("lk-new-metaref", (LK, suball('''            instance.metadata.writeComponents[entity.index][0] = true;
            instance.metadata.writeComponents[entity.index].generation = entity.generation;
            auto &validEntities = instance.metadata.writeValidEntities;
            instance.metadata.validEntityIndexes[entity.index] = validEntities.size();
            validEntities.emplace_back(entity);
''', '''            auto &table = instance.metadata;
            auto &slot = table.writeComponents[entity.index];
            slot.generation = entity.generation;
            slot.set(0);
            table.writeValidEntities.push_back(entity);
            table.validEntityIndexes[entity.index] = table.writeValidEntities.size() - 1;
''')))
ref("lk-check-first", (LK, between("                // Allocate a new set of entities and components\n", "                instance.metadata.writeComponents.resize(newSize);", '''                const size_t nextIndex = instance.metadata.writeComponents.size();
                const size_t newSize = nextIndex + TECS_ENTITY_ALLOCATION_BATCH_SIZE;
                constexpr size_t limit = std::numeric_limits<TECS_ENTITY_INDEX_TYPE>::max();
                if (limit < newSize) {
                    throw std::runtime_error("New entity index overflows type: " + std::to_string(newSize));
                }
                (AllocateComponents<AllComponentTypes>(TECS_ENTITY_ALLOCATION_BATCH_SIZE), ...);
''')))
ref("lk-remove-early", (LK, between("                auto &metadata = instance.metadata.writeComponents[index];\n", "            }\n        }\n\n        template<typename T>\n        inline void RemoveComponents() const", '''                auto &metadata = instance.metadata.writeComponents[index];
                const size_t bit = 1 + instance.template GetComponentIndex<T>();
                if (!metadata.test(bit)) return;

                auto &storage = instance.template Storage<T>();
                storage.writeValidEntities[storage.validEntityIndexes[index]] = {};
                storage.writeComponents[index] = T();
                metadata.reset(bit);
                base->template SetAccessFlag<T>(true);
                base->writeAccessedFlags.set(0);
''')))
ref("lk-entities-ternary", (LK, suball('''            if (permissions[0]) {
                return instance.metadata.writeValidEntities;
            } else {
                return instance.metadata.readValidEntities;
            }''', '''            const auto &list = permissions.test(0) ? instance.metadata.writeValidEntities : instance.metadata.readValidEntities;
            return EntityView(list);''')))
ref("lk-stop-loop", (LK, suball('''            auto eventList = observer.eventListWeak.lock();
            auto &observers = instance.template Observers<Event>().observers;
            observers.erase(std::remove(observers.begin(), observers.end(), eventList), observers.end());
            observer.eventListWeak.reset();''', '''            auto &observers = instance.template Observers<Event>().observers;
            if (auto eventList = observer.eventListWeak.lock()) {
                auto it = std::find(observers.begin(), observers.end(), eventList);
                if (it != observers.end()) observers.erase(it);
            }
            observer.eventListWeak.reset();''')), (LK, suball("#include <bitset>", "#include <algorithm>\n#include <bitset>")))
ref("lk-bitset-loop", (LK, suball('''            if constexpr (sizeof...(AllComponentTypes) < 64) {
                // clang-format off
                constexpr uint64_t mask = 1 | ((
                    ((uint64_t)is_read_allowed<AllComponentTypes, LockType>())
                        << (1 + ECS::template GetComponentIndex<AllComponentTypes>())
                ) | ...);
                // clang-format on
                result = std::bitset<1 + sizeof...(AllComponentTypes)>(mask);
            } else {
                result[0] = true;
                ((result[1 + ECS::template GetComponentIndex<AllComponentTypes>()] =
                         is_read_allowed<AllComponentTypes, LockType>()),
                    ...);
            }
            return result;''', '''            result.set(0);
            ((result.set(1 + ECS::template GetComponentIndex<AllComponentTypes>(), is_read_allowed<AllComponentTypes, LockType>::value)), ...);
            return result;''')))
ref("lk-trylock-helper", (LK, suball('''                if ((requestedRead & readPermissions) == requestedRead &&
                    (requestedWrite & this->permissions) == requestedWrite) {
                    return DynamicLockType(this->instance, this->base, this->permissions);
                }
                return {};''', '''                const bool readable = (requestedRead & ~readPermissions).none();
                const bool writable = (requestedWrite & ~this->permissions).none();
                if (!readable || !writable) return std::nullopt;
                return DynamicLockType(this->instance, this->base, this->permissions);''')))
ref("lk-ctor-init", (LK, suball('''        inline Lock(ECS &instance) : instance(instance) {
            base = std::make_shared<Transaction<ECS, Permissions...>>(instance);
            permissions[0]''', '''        inline Lock(ECS &instance) : instance(instance), base(std::make_shared<Transaction<ECS, Permissions...>>(instance)) {
            permissions[0]''')))
ref("lk-get-branches", (LK, suball('''            if (instance.template BitsetHas<CompType>(permissions)) {
                return storage.writeComponents[0];
            } else {
                return storage.readComponents[0];
            }''', '''            auto &list = instance.template BitsetHas<CompType>(permissions) ? storage.writeComponents : storage.readComponents;
            return list.front();''')))
ref("lk-has-ternary", (LK, suball('''            if (permissions[0]) {
                return instance.template BitsetHas<Tn...>(instance.globalWriteMetadata);
            } else {
                return instance.template BitsetHas<Tn...>(instance.globalReadMetadata);
            }''', '''            const auto &present = permissions[0] ? instance.globalWriteMetadata : instance.globalReadMetadata;
            return instance.template BitsetHas<Tn...>(present);''')))
ref("lk-set-delegates", (LK, between("        template<typename T, typename... Args>\n        inline T &Set(Args &&...args) const {", "        template<typename... Tn>\n        inline void Unset() const {", '''        template<typename T, typename... Args>
        inline T &Set(Args &&...args) const {
            T value(std::forward<Args>(args)...);
            return Set<T>(value);
        }

''')))
ref("lk-watch-local", (LK, suball('''            auto &eventList = observerList.observers.emplace_back(std::make_shared<std::deque<Event>>());
            return Observer(instance, eventList);''', '''            auto queue = std::make_shared<std::deque<Event>>();
            observerList.observers.push_back(queue);
            return Observer<ECS, Event>(instance, queue);''')))
ref("lk-allocate-both", (LK, suball('''                size_t newSize = instance.template Storage<T>().writeComponents.size() + count;
                instance.template Storage<T>().writeComponents.resize(newSize);
                instance.template Storage<T>().validEntityIndexes.resize(newSize);''', '''                auto &storage = instance.template Storage<T>();
                storage.validEntityIndexes.resize(storage.validEntityIndexes.size() + count);
                storage.writeComponents.resize(storage.writeComponents.size() + count);''') if False else suball('''                size_t newSize = instance.template Storage<T>().writeComponents.size() + count;
                instance.template Storage<T>().writeComponents.resize(newSize);
                instance.template Storage<T>().validEntityIndexes.resize(newSize);''', '''                auto &storage = instance.template Storage<T>();
                const size_t size = storage.writeComponents.size() + count;
                storage.validEntityIndexes.resize(size);
                storage.writeComponents.resize(size);''')))

# ---------------------------------------------------------------- entity
VALIDATE = '''            if (index >= metadataList.size()) {
                throw std::runtime_error("Entity does not exist: " + std::to_string(*this));
            }

            auto &metadata = metadataList[index];
            if (!metadata[0] || metadata.generation != generation) {
                throw std::runtime_error("Entity does not exist: " + std::to_string(*this));
            }
#endif'''
ref("en-validate-helper", (EN, suball(VALIDATE, '''            auto &metadata = Checked(metadataList);
#endif''')), (EN, suball('''    public:
        template<typename LockType>
        inline bool Exists''', '''    private:
        template<typename List>
        inline auto &Checked(List &list) const {
            if (index >= list.size() || !list[index][0] || list[index].generation != generation) {
                throw std::runtime_error("Entity does not exist: " + std::to_string(*this));
            }
            return list[index];
        }

    public:
        template<typename LockType>
        inline bool Exists''')))
ref("en-add-helper", (EN, suball('''                    lock.base->writeAccessedFlags[0] = true;

                    metadata[1 + lock.instance.template GetComponentIndex<T>()] = true;
                    auto &validEntities = lock.instance.template Storage<T>().writeValidEntities;
                    lock.instance.template Storage<T>().validEntityIndexes[index] = validEntities.size();
                    validEntities.emplace_back(*this);
''', '''                    ListAs<T>(lock, metadata);
''')), (EN, suball('''    public:
        template<typename LockType>
        inline bool Exists''', '''    private:
        template<typename T, typename LockType, typename Metadata>
        inline void ListAs(const LockType &lock, Metadata &metadata) const {
            auto &storage = lock.instance.template Storage<T>();
            storage.validEntityIndexes[index] = storage.writeValidEntities.size();
            storage.writeValidEntities.push_back(*this);
            metadata[1 + lock.instance.template GetComponentIndex<T>()] = true;
            lock.base->writeAccessedFlags[0] = true;
        }

    public:
        template<typename LockType>
        inline bool Exists''')))
ref("en-matches", (EN, suball('''            if (index >= metadataList.size()) return false;

            auto &metadata = metadataList[index];
            return metadata[0] && metadata.generation == generation;
        }''', '''            return Matches(metadataList);
        }''')), (EN, suball('''            if (index >= metadataList.size()) return false;

            auto &metadata = metadataList[index];
            return metadata[0] && metadata.generation == generation &&
                   lock.instance.template BitsetHas<Tn...>(metadata);''', '''            return Matches(metadataList) && lock.instance.template BitsetHas<Tn...>(metadataList[index]);''')),
    (EN, suball('''    public:
        template<typename LockType>
        inline bool Exists''', '''    private:
        template<typename List>
        inline bool Matches(const List &list) const {
            if (index < list.size()) {
                const auto &metadata = list[index];
                return metadata.generation == generation && metadata[0];
            }
            return false;
        }

    public:
        template<typename LockType>
        inline bool Exists''')))
ref("en-has-exists", (EN, suball('''            auto &metadataList =
                lock.permissions[0] ? lock.instance.metadata.writeComponents : lock.instance.metadata.readComponents;
            if (index >= metadataList.size()) return false;

            auto &metadata = metadataList[index];
            return metadata[0] && metadata.generation == generation &&
                   lock.instance.template BitsetHas<Tn...>(metadata);''', '''            if (!Exists(lock)) return false;
            if (lock.permissions[0]) return lock.instance.template BitsetHas<Tn...>(lock.instance.metadata.writeComponents[index]);
            return lock.instance.template BitsetHas<Tn...>(lock.instance.metadata.readComponents[index]);''')))
ref("en-unset-copy", (EN, suball('''            size_t copy = index;

            (lock.template RemoveComponents<Tn>(copy), ...);''', '''            const Entity self = *this;
            (lock.template RemoveComponents<Tn>(self.index), ...);''')))
ref("en-destroy-reorder", (EN, suball('''            // Invalidate the entity and all of its Components
            lock.RemoveAllComponents(copy);
            lock.instance.metadata.writeComponents[copy][0] = false;
            size_t validIndex = lock.instance.metadata.validEntityIndexes[copy];
            lock.instance.metadata.writeValidEntities[validIndex] = Entity();''', '''            auto &entities = lock.instance.metadata;
            entities.writeValidEntities.at(entities.validEntityIndexes[copy]) = Entity();
            entities.writeComponents[copy].reset(0);
            lock.RemoveAllComponents(copy);''')))
ref("en-destroy-clear", (EN, suball('''            ((const Entity *)this)->Destroy(lock);

            generation = 0;
            index = 0;''', '''            std::as_const(*this).Destroy(lock);
            *this = Entity();''')), (EN, suball("#include <string>\n", "#include <string>\n#include <utility>\n")))
ref("en-get-return", (EN, suball('''            if (lock.instance.template BitsetHas<CompType>(lock.permissions)) {
                return storage.writeComponents[index];
            } else {
                return storage.readComponents[index];
            }''', '''            const bool working = lock.permissions[1 + lock.instance.template GetComponentIndex<CompType>()];
            return working ? storage.writeComponents[index] : storage.readComponents[index];''')))
ref("en-set-common", (EN, between("        template<typename T, typename LockType, typename... Args>\n        inline T &Set(", "        template<typename... Tn, typename LockType>\n        inline void Unset", '''        template<typename T, typename LockType, typename... Args>
        inline T &Set(const LockType &lock, Args... args) const {
            T value(std::forward<Args>(args)...);
            return Set<T, LockType>(lock, value);
        }

''')))
ref("en-existed-at", (EN, suball('''            if (index >= lock.instance.metadata.readComponents.size()) return false;

            auto &metadata = lock.instance.metadata.readComponents[index];
            return metadata[0] && metadata.generation == generation;
        }''', '''            const auto &list = lock.instance.metadata.readComponents;
            return index < list.size() && list[index][0] && generation == list[index].generation;
        }''')))
ref("en-ops", (EN, suball('''            return index != other.index || generation != other.generation;''', '''            return !operator==(other);''')),
    (EN, suball('''            return (index == other.index) ? (generation < other.generation) : (index < other.index);''', '''            if (index != other.index) return index < other.index;
            return generation < other.generation;''')))
ref("en-pack-consts", (EN, between("    constexpr TECS_ENTITY_GENERATION_TYPE GenerationWithoutIdentifier(", "    struct Entity {", '''    namespace detail {
        constexpr size_t GenerationBits = (sizeof(TECS_ENTITY_GENERATION_TYPE) - sizeof(TECS_ENTITY_ECS_IDENTIFIER_TYPE)) * 8;
        constexpr TECS_ENTITY_GENERATION_TYPE GenerationMask = ((TECS_ENTITY_GENERATION_TYPE)1 << GenerationBits) - 1;
    } // namespace detail

    constexpr TECS_ENTITY_GENERATION_TYPE GenerationWithoutIdentifier(TECS_ENTITY_GENERATION_TYPE generation) {
        return generation & detail::GenerationMask;
    }

    constexpr TECS_ENTITY_GENERATION_TYPE GenerationWithIdentifier(TECS_ENTITY_GENERATION_TYPE generation,
        TECS_ENTITY_ECS_IDENTIFIER_TYPE ecsId) {
        const auto id = static_cast<TECS_ENTITY_GENERATION_TYPE>(ecsId);
        return (id << detail::GenerationBits) | (generation & detail::GenerationMask);
    }

    constexpr TECS_ENTITY_ECS_IDENTIFIER_TYPE IdentifierFromGeneration(TECS_ENTITY_GENERATION_TYPE generation) {
        return static_cast<TECS_ENTITY_ECS_IDENTIFIER_TYPE>(generation >> detail::GenerationBits);
    }

''')))
ref("en-hash-explicit", (EN, suball('''            uint64_t value = (uint64_t)e.index << genBits | e.generation;
            return hash<uint64_t>{}(value);''', '''            const uint64_t high = static_cast<uint64_t>(e.index) << genBits;
            const hash<uint64_t> hasher;
            return hasher(high | static_cast<uint64_t>(e.generation));''')))

# ---------------------------------------------------------------- observer, ecs
ref("ob-poll-guard", (OB, suball('''            if (eventList && !eventList->empty()) {
                eventOut = eventList->front();
                eventList->pop_front();
                return true;
            }
            return false;''', '''            if (!eventList || eventList->empty()) return false;
            auto &queue = *eventList;
            eventOut = std::move(queue.front());
            queue.pop_front();
            return true;''')))
ref("ec-commit-copy", (EC, suball('''                for (auto &observer : observers) {
                    observer->insert(observer->end(), writeQueue->begin(), writeQueue->end());
                }
                writeQueue->clear();''', '''                if (writeQueue->empty()) return;
                for (const auto &observer : observers) {
                    for (const auto &event : *writeQueue) observer->push_back(event);
                }
                writeQueue->clear();''')))
ref("ec-commit-copy-algo", (EC, suball('''                for (auto &observer : observers) {
                    observer->insert(observer->end(), writeQueue->begin(), writeQueue->end());
                }
                writeQueue->clear();''', '''                auto &queue = *writeQueue;
                for (size_t i = 0; i < observers.size(); i++) {
                    std::copy(queue.begin(), queue.end(), std::back_inserter(*observers[i]));
                }
                queue.clear();''')), (EC, suball("#include <bitset>", "#include <algorithm>\n#include <bitset>\n#include <iterator>")))
ref("ec-ctor-init", (EC, suball('''        ECS() {
            ecsId = ++nextEcsId;
        }''', '''        ECS() : ecsId(nextEcsId.fetch_add(1) + 1) {}''')))
ref("ec-index-fold", (EC, suball('''            return GetComponentIndex<0, U>();
        }

        /**
         * Returns the number''', '''            static_assert(contains<U, Tn...>(), "Component does not exist");
            size_t result = 0;
            bool found = false;
            ((found = found || std::is_same<U, Tn>::value, result += found ? 0 : 1), ...);
            return result;
        }

        /**
         * Returns the number''')))
ref("ec-bitset-mask", (EC, suball('''            return (bitset[1 + GetComponentIndex<0, Un>()] && ...);''', '''            bool all = true;
            ((all = all && bitset[1 + GetComponentIndex<0, Un>()]), ...);
            return all;''')))
ref("ec-init-return", (EC, suball('''                if (!writeQueue) writeQueue = std::make_shared<std::deque<Event>>();''', '''                if (writeQueue != nullptr) return;
                writeQueue.reset(new std::deque<Event>());''')))

# ---------------------------------------------------------------- permissions
ref("pm-subset", (PM, between("    template<typename T, typename SubLock, typename Lock>\n    struct is_lock_subset", "    // Read<LockedTypes...> specialization", '''    template<typename T, typename SubLock, typename Lock>
    struct is_lock_subset : std::bool_constant<(!is_write_allowed<T, SubLock>::value || is_write_allowed<T, Lock>::value) &&
                                               (!is_read_allowed<T, SubLock>::value || is_read_allowed<T, Lock>::value)> {};

''')))
ref("pm-const", (PM, suball('''    template<typename T, typename ECSType, typename... Permissions>
    struct is_write_allowed<T, const Lock<ECSType, Permissions...>> : std::disjunction<is_write_allowed<T, Permissions>...> {};''', '''    template<typename T, typename ECSType, typename... Permissions>
    struct is_write_allowed<T, const Lock<ECSType, Permissions...>> : is_write_allowed<T, Lock<ECSType, Permissions...>> {};''')))
ref("pm-contains", (PM, suball('''    struct contains : std::disjunction<std::is_same<T, Un>...> {};''', '''    struct contains : std::bool_constant<(std::is_same_v<T, Un> || ...)> {};''')))

# ---------------------------------------------------------------- view, tracing
ref("vw-bounds", (VW, suball('''                if (i < view.start_index || i >= view.end_index) {''', '''                if (!view.Contains(i)) {''')), (VW, suball('''    private:
        const std::vector<Entity> *storage''', '''    private:
        inline bool Contains(size_t position) const noexcept {
            return position >= start_index && position < end_index;
        }

        const std::vector<Entity> *storage''')))
ref("vw-arith", (VW, suball('''            inline iterator operator+(difference_type n) const noexcept {
                return iterator(view, i + n);''', '''            inline iterator operator+(difference_type n) const noexcept {
                iterator result(*this);
                result += n;
                return result;''')), (VW, suball('''                iterator tmp = *this;
                i++;
                return tmp;''', '''                return iterator(view, i++);''')))
ref("tr-trace-guard", (TR, suball('''            if (traceEnabled) {
                auto index = nextEventIndex++;
                if (index < events.size()) {
                    auto &event = events[index];
                    event.time = std::chrono::steady_clock::now();
                    event.thread = std::this_thread::get_id();
                    event.type = eventType;
                }
            }''', '''            if (!traceEnabled.load()) return;
            const size_t index = nextEventIndex.fetch_add(1);
            if (index >= events.size()) return;
            events[index] = TraceEvent{eventType, std::this_thread::get_id(), std::chrono::steady_clock::now()};''')))
ref("tr-csv-cell", (TR, between("                if (row < transactionEvents.size()) {", "                out << std::endl;\n            }\n        }\n    };", '''                const auto cells = [&](const nonstd::span<TraceEvent> &list) {
                    if (row >= list.size()) {
                        out << ",,";
                        return;
                    }
                    auto &event = list[row];
                    out << event.type << "," << GetThreadName(event.thread) << ",";
                    out << std::chrono::duration_cast<std::chrono::nanoseconds>(event.time.time_since_epoch()).count();
                    done = false;
                };
                cells(transactionEvents);
                out << ",";
                cells(metadataEvents);
                for (auto &events : componentEvents) {
                    out << ",";
                    cells(events);
                }
''')))


# ---------------------------------------------------------------- renamed internals
def rename(*pairs):
    def f(s):
        for a, b in pairs:
            s = re.sub(r"(?<![A-Za-z_:])" + a + r"(?![A-Za-z_])", b, s)
        return s
    return f


ALL = (ST, TX, LK, EN, OB, EC, VW, PM, TR, "src/Tecs.cc")


def renames(name, *pairs, files=ALL):
    ref(name, *[(f, rename(*pairs)) for f in files])


renames("rn-free", ("freeEntities", "freeSlots"))
renames("rn-words", ("readers", "readerCount"), ("writer", "writerState"), files=(ST,))
renames("rn-tables", ("readComponents", "committed"), ("writeComponents", "working"))
renames("rn-lists", ("readValidEntities", "committedList"), ("writeValidEntities", "workingList"), ("validEntityIndexes", "positions"))
renames("rn-flags", ("writeAccessedFlags", "touched"), ("SetAccessFlag", "MarkTouched"))
renames("rn-base", ("base", "transaction"), ("permissions", "writable"), files=(LK, EN))
renames("rn-instance", ("instance", "ecs"), files=(LK, EN, TX))
renames("rn-metadata", ("metadata", "entityTable"), files=(EC, LK, EN, TX))
renames("rn-global", ("globalReadMetadata", "committedGlobals"), ("globalWriteMetadata", "workingGlobals"))
renames("rn-indexes", ("indexes", "tables"), ("eventLists", "eventQueues"), files=(EC, TX))
renames("rn-observers", ("observers", "queues"), ("writeQueue", "pending"))
renames("rn-precommit", ("PreCommitAddRemove", "RebuildComponent"), ("PreCommitAddRemoveMetadata", "RebuildEntities"), ("RemoveComponents", "DropComponents"), ("AllocateComponents", "GrowTable"), ("RemoveAllComponents", "DropAll"))
renames("rn-view", ("storage", "list"), ("start_index", "first"), ("end_index", "last"), files=(VW,))
renames("rn-iterator", ("i", "position"), files=(VW,))
renames("rn-trace", ("nextEventIndex", "next"), ("events", "buffer"), ("traceEnabled", "running"), files=(TR,))
renames("rn-statics", ("activeTransactions", "threadTransactions"), ("activeTransactionsCount", "threadTransactionCount"), ("nextEcsId", "lastInstance"), ("nextTransactionId", "lastTransaction"))
renames("rn-ids", ("transactionId", "id"), ("ecsId", "instanceId"))
renames("rn-observer-handle", ("eventListWeak", "queue"))
renames("rn-helpers", ("BitsetHas", "HasBits"), ("Storage", "Table"), ("Observers", "Queues"), files=(EC, LK, EN, TX))
renames("rn-dynamic", ("readPermissions", "readable"), ("generateReadBitset", "readBits"), ("generateWriteBitset", "writeBits"), files=(LK,))
renames("rn-acquired", ("acquired", "held"), ("lockFuncs", "lockers"), ("unlockFuncs", "unlockers"), ("rollback", "undo"), files=(TX,))
renames("rn-states", ("WRITER_FREE", "W_FREE"), ("WRITER_LOCKED", "W_HELD"), ("WRITER_COMMIT", "W_COMMIT"), ("READER_FREE", "R_NONE"), ("READER_LOCKED", "R_CLOSED"), files=(ST,))
ref("st-split-try", (ST, suball("inline bool ReadLock(bool block = true) {", "inline bool TryReadLock() {\n            return ReadLockImpl(false);\n        }\n\n        inline void ReadLock() {\n            ReadLockImpl(true);\n        }\n\n        inline bool ReadLockImpl(bool block) {")),
    (ST, suball("inline bool WriteLock(bool block = true) {", "inline bool TryWriteLock() {\n            return WriteLockImpl(false);\n        }\n\n        inline void WriteLock() {\n            WriteLockImpl(true);\n        }\n\n        inline bool WriteLockImpl(bool block) {")),
    (TX, lambda s: re.sub(r"return (instance\.[^;]*?)\.(Read|Write)Lock\(block\);", r"if (block) { \1.\2Lock(); return true; }\n return \1.Try\2Lock();", s)))

ref("st-grouped", (ST, suball("""        std::vector<T> readComponents;
        std::vector<T> writeComponents;
        std::vector<Entity> readValidEntities;
        std::vector<Entity> writeValidEntities;
""", """        struct Copy {
            std::vector<T> components;
            std::vector<Entity> validEntities;
        };
        Copy read, write;
""")), *[(f, rename(("readComponents", "read.components"), ("writeComponents", "write.components"), ("readValidEntities", "read.validEntities"), ("writeValidEntities", "write.validEntities"))) for f in (TX, LK, EN)])
ref("tx-grouped-statics", (TX, suball("""    extern thread_local std::array<size_t, TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD> activeTransactions;
    extern thread_local size_t activeTransactionsCount;
""", """    struct ActiveTransactions {
        std::array<size_t, TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD> ids = {};
        size_t count = 0;
    };
    extern thread_local ActiveTransactions active;
""")), (TX, rename(("activeTransactions", "active.ids"), ("activeTransactionsCount", "active.count"))),
    ("src/Tecs.cc", suball("""    thread_local std::array<size_t, TECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD> activeTransactions;
    thread_local size_t activeTransactionsCount = 0;
""", "    thread_local ActiveTransactions active;\n")))
ref("ec-free-vector", (EC, suball("std::deque<Entity> freeEntities;", "std::vector<Entity> freeEntities;")),
    (LK, suball("""                entity = instance.freeEntities.front();
                instance.freeEntities.pop_front();""", """                entity = instance.freeEntities.back();
                instance.freeEntities.pop_back();""")))
ref("tx-flags-array", (TX, suball("std::bitset<1 + sizeof...(AllComponentTypes)> writeAccessedFlags;", "std::array<bool, 1 + sizeof...(AllComponentTypes)> writeAccessedFlags = {};")),
    (TX, suball("this->instance.template BitsetHas<AllComponentTypes>(this->writeAccessedFlags)", "this->writeAccessedFlags[1 + this->instance.template GetComponentIndex<AllComponentTypes>()]")))


NOTYPES = "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C17,C18,C19,C20,C21,C22,C23,C24,C25,C26,C27,C28,C29,C31,C32,C33,C34,C39"
QUICK = {"st": "C01,C02,C03,C04,C05,C06,C07,C08,C09,C11,C12,C29,C34", "en": NOTYPES.replace(",C29", ""), "tx": NOTYPES, "ob": NOTYPES, "vw": "C27,C19", "tr": "C29"}


def checks_for(name):
    return QUICK.get(name[:2]) or NOTYPES + ",C15,C16,C30,C38"


def one(name, build):
    d = tempfile.mkdtemp(prefix="refac")
    try:
        for s in (("inc", "src") if not build else [x for x in os.listdir("/repo") if x not in (".git", "_build")]):
            p = "/repo/" + s
            if os.path.isdir(p):
                shutil.copytree(p, d + "/repo/" + s)
            elif os.path.exists(p):
                shutil.copy(p, d + "/repo/" + s)
        for f, e in REF[name]:
            p = d + "/repo/" + f
            s = open(p).read()
            try:
                s = e(s)
            except (AssertionError, ValueError) as x:
                return name, f"NOT APPLICABLE {str(x)[:80]}"
            open(p, "w").write(s)
        if build:
            w = d + "/repo"
            r = subprocess.run(f"cmake -S {w} -B {w}/_build -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo -DCMAKE_CXX_COMPILER=g++ && ninja -C {w}/_build", shell=True, capture_output=True, text=True)
            if r.returncode:
                return name, "BUILD FAILS " + "".join(l + "\n" for l in r.stdout.splitlines() if "error" in l)[:600]
            out = ""
            for t in ("Tecs-tests", "Tecs-tests-unchecked", "Tecs-benchmark"):
                r = subprocess.run(["timeout", "120", w + "/_build/tests/" + t], cwd=d, capture_output=True, text=True)
                out += f" {t}={r.returncode}"
            return name, "built:" + out
        env = dict(os.environ, TECS_REPO=d + "/repo", VERIF_OUT=d + "/out")
        os.makedirs(d + "/out/evidence", exist_ok=True)
        r = subprocess.run(["python3", R + "/check.py", checks_for(name)], capture_output=True, text=True, env=env)
        bad, und = [], []
        for l in r.stdout.splitlines() + r.stderr.splitlines():
            if l.startswith("VIOLATION") or "BROKEN" in l or " at " in l and l.startswith("  ") and not l.startswith("      ") and "UNDECIDED" not in l:
                bad.append(l.strip()[:240])
            if "UNDECIDED" in l:
                und.append(l.strip()[:160])
        return name, f"rc={r.returncode} und={len(und)} {' '.join(sorted({u for u in und})[:2])}" + "".join("\n    " + b for b in bad[:8])
    finally:
        shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    n, build = 1, False
    while a and a[0].startswith("-"):
        if a[0] == "-b":
            build = True
        else:
            n = int(a[0][2:])
        a = a[1:]
    names = [k for k in REF if not a or any(k.startswith(x) for x in a)]
    with ThreadPoolExecutor(n) as ex:
        for k, v in ex.map(lambda k: one(k, build), names):
            print(k, v, flush=True)
