#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run it to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)

ST = "inc/Tecs_storage.hh"; TX = "inc/Tecs_transaction.hh"; LK = "inc/Tecs_lock.hh"; EN = "inc/Tecs_entity.hh"
EV = "inc/Tecs_entity_view.hh"; OB = "inc/Tecs_observer.hh"; PE = "inc/Tecs_permissions.hh"; TR = "inc/Tecs_tracing.hh"
T = "inc/Tecs.hh"; CC = "src/Tecs.cc"

prop("C01", "Readers and a commit of the same data never overlap",
 "While any transaction holds read access to a component type or to the entity set, no commit of that data is in progress, and while a commit is in progress no reader is admitted. Every granted read access counts as exactly one holder until it is given back exactly once, and a commit proceeds only after the number of holders has been seen to be zero and further readers were locked out in the same atomic step.",
 ["schedules"], "every interleaving of any number of readers and writers on one component type",
 "The tests run a handful of sleeps-based schedules; a missing check in one lock transition shows only in a window of a few instructions.",
 [ST], [("reader count compare-exchange", ST+": ReadLock/ReadUnlock"), ("commit lock on the reader count", ST+": CommitLock/CommitUnlock/WriteUnlock")],
 [("readers", "number of readers, or the locked-out marker", ST), ("writer", "free / locked / committing", ST)])
prop("C02", "At most one writer holds a component type at a time",
 "At any time at most one transaction holds write access to a given component type, or add/remove access to the entity set. Access is granted only by an atomic step from the free state, only the holder can enter or leave the committing phase, and releasing it makes it free again exactly once.",
 ["schedules"], "every interleaving of any number of writers",
 "Two writers are rarely released in the same instant by the tests; a check-then-set hole needs an exact interleaving.",
 [ST], [("writer state compare-exchange", ST+": WriteLock/CommitLock/CommitUnlock/WriteUnlock")],
 [("writer", "free / locked / committing", ST)])
prop("C03", "What was written before a release is visible after the next acquire",
 "Everything a transaction wrote or read before it released any access happens before everything done by the next transaction that acquires conflicting access to the same data. Every granting step of the component locks is therefore at least an acquire operation and every releasing step at least a release operation on the same atomic object, on every path.",
 ["schedules", "configurations"], "every pair of release and subsequent acquire, on any memory model C++ permits",
 "The tests run on one strongly ordered CPU where weaker orders behave the same; the compiler may still reorder.",
 [ST], [("memory orders of the lock transitions", ST)])
prop("C04", "A blocked lock request is always woken when it can proceed",
 "Whenever a releasing step makes a lock state available that a blocked request may be sleeping on, all sleepers on that state are notified after the change and before the releasing call returns. A request goes to sleep only on a value that it has just observed and that really prevents it from proceeding.",
 ["schedules", "configurations"], "every interleaving of sleepers and releasers; builds with and without atomic wait",
 "A lost wake-up needs the sleeper to be between its last check and its sleep; tests have timing slack and pass.",
 [ST], [("wait/notify pairs", ST)])
prop("C05", "A commit that has begun takes priority over new readers",
 "From the moment a transaction begins to commit a component type, every new read request for it is refused or waits until that commit has finished, however many readers keep arriving. Only the readers already admitted are waited for.",
 ["schedules"], "every arrival pattern of readers during a commit",
 "The test samples one pattern of 100 sleeping threads; starvation would need a continuous overlap it does not produce.",
 [ST], [("committing state checked by readers", ST+": ReadLock/CommitLock")])
prop("C06", "Lock requests report truthfully and never leave a trace on failure",
 "A lock request reports success exactly when it obtained the access, and a failed request has changed nothing. A non-blocking request never waits or retries after a refusal, and a blocking request returns only with the access obtained.",
 ["schedules", "histories"], "every lock state at the time of the request, blocking or not",
 "The non-blocking failure paths are hit only by chance in the tests, and nothing checks what they leave behind.",
 [ST], [("return paths of the lock requests", ST+": ReadLock/WriteLock")])
prop("C07", "Starting a transaction never waits while holding any lock",
 "While a transaction is being started it only ever blocks at a moment when it holds no access at all; if some access is refused it gives back all access obtained so far before it waits again. Hence transactions being started can never form a waiting cycle, whatever permissions they request.",
 ["schedules", "programs"], "every combination of requested permissions and every order of refusals",
 "Hold-and-wait deadlocks need several transactions with crossing permissions and an exact order of refusals; tests exercise two fixed sets.",
 [TX], [("acquire-or-roll-back loop", TX+": Transaction::Transaction")])
prop("C08", "A transaction takes exactly its permissions' locks and returns each once",
 "When a transaction has started it holds read access for every component type it may only read, write access for every type it may write, access to the entity set (exclusive for add/remove, shared otherwise), and nothing else. When it ends, every access it holds is given back exactly once in the matching mode, on every path.",
 ["programs", "histories"], "every permission set and every subset of touched component types",
 "There are exponentially many permission sets and touched subsets; tests use about a dozen.",
 [TX, PE], [("lock and unlock functions per component", TX), ("permission traits", PE)])
prop("C09", "Concurrent commits cannot deadlock on each other's read access",
 "By the time a transaction waits for readers to leave a component type so it can commit, it has already given back its read access to all other component types. Two committing transactions therefore never wait for each other.",
 ["schedules", "programs"], "every pair of transactions with crossing read and write permissions",
 "The one test for this uses two component types and one schedule.",
 [TX], [("read access released before the commit locks are taken", TX+": ~Transaction")])
prop("C10", "Committed data changes only in a commit; working data only under write access",
 "The data other transactions can see changes only while the changing transaction has excluded all readers of it. Uncommitted working data is touched only by a transaction that holds write access to it, and neither kind of data is accessed any more by a transaction that has given back its access.",
 ["schedules", "histories"], "every interleaving of readers with an ending transaction, every subset of touched types",
 "Accesses just outside the locked region race only with a concurrent transaction that hits the gap.",
 [TX, LK, EN], [("commit sequence", TX+": ~Transaction"), ("accessors that hand out references", EN+", "+LK)])
prop("C11", "A commit becomes visible as a whole",
 "The changes of one transaction to all component types, to global components and to the set of entities become visible together: any later or concurrent transaction that reads several of them sees either all of the commit or none of it. All data to be published is locked against readers before the first part of it is published.",
 ["schedules", "histories"], "every reader that overlaps a commit touching several types",
 "The cross-component test observes a single overlap after a fixed sleep.",
 [TX], [("all commit locks taken before the first publish", TX+": ~Transaction")])
prop("C12", "After a commit the next writer starts from exactly the committed state",
 "When a transaction that changed something gives back its write access, the working copy of every component type, of the entity lists and of the entity set equals the committed copy, including components that were added, removed or reset. The next writer therefore never sees stale or half-copied data.",
 ["histories"], "every history of commits, with any fraction of entities carrying the component",
 "Stale slots show up only two commits later and only for the copy strategy (bulk or sparse) that was wrong; tests use one density.",
 [TX], [("copy back after the swap", TX+": ~Transaction")])
prop("C13", "Every change made in a transaction is published by its commit",
 "Whatever a transaction changed through any operation that can modify data (component values, added or removed components, created or destroyed entities, global components) is what later transactions read after it ended. No operation can hand out modifiable access or modify data without the change being published by the commit.",
 ["histories", "programs"], "every sequence of modifying operations under every permission set",
 "A forgotten change marker loses writes only when no other operation of the same transaction marks that type; tests mix operations.",
 [TX, EN, LK], [("change markers set by each mutating operation", EN+", "+LK), ("publish step", TX)])
prop("C14", "Transactions that changed nothing publish nothing and wait for nobody",
 "Operations that only look (existence queries, immutable reads, previous values, entity lists) never cause a commit of anything. When a transaction ends, types it did not change are neither published nor waited for, so such a transaction never blocks on concurrent readers.",
 ["histories", "programs"], "every sequence of read-only operations under every permission set",
 "Tests cover three fixed transactions; a spurious change marker on another operation would only appear as blocking under contention.",
 [TX, EN, LK], [("change markers", EN+", "+LK), ("early release of unchanged types", TX)])
prop("C15", "Operations a lock does not permit do not compile",
 "A program that modifies a component through a lock without write permission for it, reads a component without read permission, creates or destroys entities, adds or removes components or manages observers without add/remove permission, or treats global components as entity components (or vice versa), is rejected at compile time. Locks without write permission only ever yield immutable references.",
 ["programs"], "every program against the API, every permission set",
 "Tests contain only programs that compile; they cannot show that a wrong program is rejected.",
 [PE, LK, EN], [("permission traits and static assertions", PE+", "+LK+", "+EN)])
prop("C16", "Lock conversions never grant more access than the transaction holds",
 "A lock converts implicitly or explicitly only to locks whose permissions are a subset of its own, and a run-time lock request succeeds exactly when the underlying permissions cover everything requested, including add/remove. A read-only view of a lock can never be turned back into write access.",
 ["programs", "histories"], "every pair of source and requested permission sets",
 "The tests try a few conversions that should work; nearly all pairs that must be refused are never tried.",
 [LK, PE], [("subset checks", LK+": is_lock_subset, has_permissions, TryLock, ReadOnlySubset"), ("permission traits", PE)])
prop("C17", "Operations on entities that do not exist fail cleanly",
 "With run-time checks on, reading, setting, removing components of or destroying an entity that is null, out of range, already destroyed, from an older generation or from another instance throws an exception, as does accessing a component the entity does not have without add/remove permission. Such a failed operation changes no data and reads no memory out of bounds, and existence queries on such an entity return false.",
 ["inputs", "histories"], "every entity value and every state of the entity set",
 "The tests try null and freshly destroyed entities on a few operations only.",
 [EN, LK], [("validity checks before each access", EN)])
prop("C18", "Entity ids are not null, not reused and belong to one instance",
 "Every newly created entity has a non-null id that differs from every id this instance issued before (until the generation counter wraps around): a slot is handed out again only after its entity was destroyed and committed, and with a higher generation. The id carries the identity of the instance that created it.",
 ["histories"], "every history of creations and destructions over any number of transactions",
 "Tests reuse a slot three times in order; double issue or missing generation changes appear only in longer or interleaved histories.",
 [LK, TX, EN], [("free list with bumped generations", TX+": PreCommitAddRemoveMetadata"), ("allocation", LK+": NewEntity")])
prop("C19", "Queries show own changes; previous-state queries show the start state",
 "Within a transaction with add/remove permission, existence and component queries, entity lists and reads reflect the changes already made in it, and reads of writable components return the values written so far, through every lock derived from it. Queries for the previous state always reflect the state at the start of the transaction, and so do all queries through a read-only view.",
 ["histories", "programs"], "every sequence of operations under every derived lock",
 "Only a few combinations of operation, permission and derived lock are sampled.",
 [EN, LK], [("choice between committed and working data by held permissions", EN+", "+LK)])
prop("C20", "Adding a component is complete, initialised and listed exactly once",
 "Setting a component, or getting modifiable access to it, on an existing entity that lacks it, with add/remove permission, makes the entity have it, with the given value (or a default value, never a stale one), and appends the entity exactly once to the list of entities with that component. If the entity has it already, only the value is affected and lists and events stay as they are; an immutable read never adds a component.",
 ["histories", "inputs"], "every prior state of the entity, every permission set with add/remove",
 "A stale value or duplicate list entry appears only for particular sequences of remove and add on one slot.",
 [EN], [("add paths", EN+": Get, Set")])
prop("C21", "Removal affects exactly the named entity and components",
 "Removing components or destroying an entity affects exactly the components named (or all of the entity's components) of exactly that entity, and resets their values at once. Entity lists obtained earlier in the transaction keep their size and order, with the removed entity's entry becoming null, even if the handle used for the removal is itself an element of such a list.",
 ["histories", "inputs"], "every subset of components, every handle including list elements",
 "Tests destroy through list references but remove several components only through copies.",
 [EN, LK], [("removal helpers and list entries", LK+": RemoveComponents"), ("destroy/unset", EN)])
prop("C22", "Entity lists match existence after every commit",
 "After a transaction with structural changes has committed, the list of entities contains exactly the existing entities and the list for each component type exactly the entities that have it, each once, with its current id. The bookkeeping used to find an entity's list entry points to exactly that entry.",
 ["histories"], "every history of additions and removals",
 "Lists are checked in a few fixed situations; a wrong index entry corrupts a list only on a later removal.",
 [TX, LK, EN], [("list rebuild before commit", TX+": PreCommitAddRemove*")])
prop("C23", "Observers report exactly the net changes of a commit",
 "For every entity and component type, a commit produces an added event exactly if it exists afterwards and did not before (or its id changed), and a removed event exactly if it existed before and does not afterwards (or its id changed), removed before added. Events carry the right id and the component value: the committed previous value for removals, the new value for additions; value changes and add-remove pairs inside one transaction produce no events.",
 ["histories"], "every pair of states before and after a transaction with structural changes",
 "The observer tests see two scenarios; the id-changed and component-level combinations are not enumerated.",
 [TX, OB], [("comparison of old and new state", TX+": PreCommitAddRemove*")])
prop("C24", "Each active observer receives every committed event exactly once, in order",
 "Every event of a commit is delivered to every observer active at that time exactly once and in order, and pending events are delivered only by a commit that excludes all pollers. Polling returns events first-in first-out, each once; a stopped observer receives nothing more and stopping it does not affect any other observer.",
 ["histories", "schedules"], "every number of observers and every sequence of commits, polls and stops",
 "Tests use one observer per event type and stop all of them at once.",
 [OB, T, LK, TX], [("event queues", T+": ObserverList"), ("poll/stop", OB), ("watch/stop", LK), ("commit", TX)])
prop("C25", "Nested transactions on one instance are detected, and only those",
 "Starting a transaction on a thread that already has an active transaction on the same instance throws instead of deadlocking, and the same holds for exceeding the per-thread limit of simultaneous transactions; neither leaves any lock held or any bookkeeping behind. Transactions on other instances, or after the previous one ended on the thread that started it, are not refused.",
 ["histories", "programs"], "every sequence of starts and ends of transactions on any instances on one thread",
 "One nesting of depth two is tested; bookkeeping errors show only in deeper or out-of-order endings.",
 [TX, CC], [("per-thread list of active instances", TX+": BaseTransaction"), ("definitions", CC)])
prop("C26", "Storage for a new entity exists in every table before the id is handed out",
 "When a new entity is created, its slot is within the storage of the entity table and of every (non-global) component table and their list bookkeeping, also after the commit in the copy that readers use. Creation fails with an exception instead of handing out an id that does not fit the id's index type.",
 ["histories", "inputs"], "every number of entities created, every allocation batch boundary",
 "Batch boundaries are crossed in the tests only with all component types in use.",
 [LK, TX], [("batch allocation", LK+": NewEntity, AllocateComponents")])
prop("C27", "Entity views stay within their window in both directions",
 "Iterating an entity view forwards visits exactly the entities of its window in order, and backwards exactly the same ones in reverse; size and emptiness agree with that. With run-time checks on, any access or sub-view outside the window or the underlying list throws, and a sub-view from any valid offset with the default count covers the whole rest of the window.",
 ["inputs"], "every window, offset, count and index",
 "Tests use whole-list views and forward iteration only.",
 [EV], [("bounds checks and iterator arithmetic", EV)])
prop("C28", "Entity id comparison, hashing and conversion are consistent",
 "Equality, inequality and ordering of entity ids are consistent with each other and form a strict total order on index and generation; equal ids have equal hashes; an id is null exactly if its generation is zero, in both boolean forms. Converting an id to an integer and back yields the same id, and the generation and instance identifier packed into an id can be recovered unchanged.",
 ["inputs"], "every pair of ids and every 64-bit value",
 "One map insertion and a few small ids are tested out of 2^64 values.",
 [EN], [("operators and packing helpers", EN)])
prop("C29", "Performance traces record every lock transition, within bounds",
 "With tracing built in and running, every lock grant and release records exactly one event of the matching kind, every transaction one start and one end, and no event is ever written outside the trace buffer or returned beyond what was recorded. Each event kind prints as its own name, and every row of the saved table has the same number of columns as its header.",
 ["histories", "configurations", "schedules"], "every history of lock operations, including more events than the buffer holds, any number of component types",
 "The tracing build is only run as a benchmark; nothing checks its output.",
 [TR, ST, TX, T], [("trace calls", ST+", "+TX), ("buffer bounds, names and table output", TR)])
prop("C30", "Every documented build configuration offers the whole API",
 "All operations of the library compile, and transactions can be used, in every documented build configuration: as library or header-only, with or without run-time checks and performance tracing, in C++17 and C++20. Header-only use in several source files of a program does not break linking or per-instance identity.",
 ["configurations"], "every combination of the documented build options",
 "The test suite builds three of the combinations and never header-only mode.",
 [T, TX, LK, "CMakeLists.txt"], [("conditional compilation", "inc/*.hh")])
prop("C31", "Global components behave like a single always-addressable component",
 "Setting a missing global component, or getting modifiable access to it, with add/remove permission creates it (with the given or a default value) and publishes it on commit; immutable reads never create it. Without add/remove permission accessing a missing one throws when checks are on; removing it makes it absent at once and previous-state queries keep showing the start state.",
 ["histories", "inputs"], "every prior state and every permission set",
 "Tests walk through one life cycle of one global component.",
 [LK, TX], [("global accessors", LK+": Get, Set, Has, Unset")])
prop("C32", "Disabling run-time checks does not change valid programs",
 "For every operation on an existing entity or component, the build without run-time checks has the same effect, result and commit behaviour as the checked build; it only omits the failure cases.",
 ["configurations", "inputs"], "every valid operation under every permission set",
 "Both builds run the same samples; operations not sampled may differ.",
 [EN, LK, EV], [("conditional checks", EN+", "+LK+", "+EV)])
prop("C33", "Transaction and instance ids are unique across threads",
 "Every transaction gets an id different from every other transaction's id in the process, and every instance an id different from every other instance's, no matter how many threads create them at the same time.",
 ["schedules"], "every interleaving of concurrent creations",
 "The tests create transactions one after the other and check the final count.",
 [TX, T, CC], [("atomic counters", TX+", "+T+", "+CC)])
prop("C34", "A transaction lives exactly as long as some lock refers to it",
 "Every lock obtained from a transaction, by copying, conversion, sub-setting or a run-time request, keeps the transaction active, and it ends and commits exactly when the last such lock is gone. No operation ends or replaces a transaction earlier, and transactions cannot be copied.",
 ["programs", "histories"], "every way to derive, copy and drop locks",
 "One test keeps one converted copy alive.",
 [LK, TX, OB], [("shared ownership of the transaction", LK)])
prop("C35", "Concurrent histories are snapshot-consistent end to end",
 "In every concurrent execution, each transaction's reads return the state produced by some prefix of the commit order together with its own changes.",
 ["schedules", "histories"], "all concurrent histories of whole transactions",
 "Needs all interleavings of whole transactions.", [TX, ST], [("transactions and locks", TX+", "+ST)])
prop("C36", "No transaction starves",
 "Every request to start a transaction is eventually granted if all running transactions end eventually.",
 ["schedules"], "all fair schedules", "Liveness over infinite schedules.", [TX, ST], [("retry loops", TX+", "+ST)])
prop("C37", "Component values survive storage unchanged",
 "The value read back equals the value stored for every component type, across any number of commits.",
 ["inputs", "histories"], "all user component types and values", "Component types are user code.", [TX, EN], [("copies and swaps of component vectors", TX)])
prop("C38", "Permission and component queries agree with the rules for all types",
 "For every permission list, nested or not, and every kind of lock type, constant or not, the compile-time queries whether reading, writing, adding or removing is allowed, and whether one lock's permissions are part of another's, give exactly what the documented permission rules give, so code that is selected by them is selected rightly. For every list of component types each component has its own number in listed order below the component count, exactly the listed types count as components, and the queries for global components agree with the declarations.",
 ["inputs"], "every permission list, lock type and component list (types are the inputs)",
 "The tests assert some twenty combinations for one component list.",
 [PE, T, LK], [("permission traits", PE), ("component numbering", T + ": GetComponentIndex"), ("has_permissions", LK)])
prop("C39", "No operation writes memory other threads may use unprotected",
 "Whatever a query, any other operation, or the start or end of a transaction writes is local to the call, local to the thread, atomic, private to the transaction, or protected by access which the transaction holds. Queries (existence, reads of values, lists of entities, previous state) write nothing at all besides their own local variables: neither data of the instance nor of their transaction, so several threads may query through one lock, and transactions of different instances or of unrelated components never race on hidden common state.",
 ["schedules", "programs"], "every operation, state, and interleaving with operations of other threads",
 "The tests are single-threaded where they query, and a data race on a cache or static variable needs an exact interleaving to do harm.",
 [EN, LK, TX, CC], [("queries of entities", EN), ("queries of locks", LK), ("transaction bookkeeping", TX)])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
