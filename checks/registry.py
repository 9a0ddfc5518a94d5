"""Which module decides which property, and what the manifest says about it."""
MODULES = {}
CLAIMED = {}


def claim(module, ids, technique, note):
    for i in ids.split():
        MODULES[i] = module
        CLAIMED[i] = (technique, note)


claim("locks", "C01 C02 C03 C04 C05 C06",
      "typestate analysis of the lock words over all paths of the lock primitives (abstract interpretation, loops as fixpoints)",
      "Every path of every lock primitive, for every value other threads can put into the lock words, in C++17/C++20, with and "
      "without tracing, library and header-only. Values of the reader count are represented by region representatives.")

TX = ("Every path of transaction start and end for 16 permission sets, any set of flagged changes and any table contents; lock "
      "primitives abstracted to the behaviour C01-C06 establish.")
OPS = ("Every operation x every kind of lock x checked/unchecked, from an arbitrary state; the state after it is compared with a reference "
       "semantics at a generic index of every table.")
claim("tx", "C07 C08 C09 C11 C12 C22 C23",
      "typestate and value-flow analysis of starting and ending transactions (abstract interpretation; table loops summarised for a generic entity)", TX)
claim("tx+ops", "C10 C13 C14 C18",
      "typestate and value-flow analysis of transactions and of every operation inside them (abstract interpretation)", TX + " " + OPS)
LIFE = ("Every way to derive and drop a lock, every content of the thread's list of active transactions, every sequence of up to six starts "
        "and ends on four instances, every observer operation on arbitrary lists and queues.")
claim("tx+life", "C24",
      "typestate and value-flow analysis of commits, and of watching, stopping and polling (abstract interpretation)", TX + " " + LIFE)
claim("life", "C25 C33 C34",
      "abstract interpretation of the start, sharing and end of transactions with reference counts and the thread's bookkeeping; value flow of ids", LIFE)
claim("ops", "C17 C19 C20 C21 C26 C31",
      "abstract interpretation of every operation through every kind of lock, post-states compared with a reference semantics", OPS)

claim("ops+tx", "C39",
      "effect analysis of every operation and of transactions: every written location is classified as local, thread-local, atomic, private or protected by "
      "access held (abstract interpretation)", OPS + " " + TX)

claim("ops+tx", "C32",
      "abstract interpretation of every operation and of transactions, with and without run-time checks", OPS + " " + TX)

claim("types", "C15 C16 C30",
      "compile-fail and compile-pass witnesses generated from the permission rules, decided by the compiler front end; abstract interpretation of run-time lock requests; symbol-table inspection",
      "Every operation x 29 permission lists x kinds of lock, every ordered pair of permission lists, every documented configuration.")

claim("types", "C38",
      "compile-time assertions generated from the permission rules and evaluated by the compiler front end over a family of types",
      "29 permission lists x 4 kinds of lock x 3 components, all 841 pairs of permission lists, component lists of 1 to 71 types.")

claim("ent", "C28",
      "abstract interpretation of the id operators per case of the three-way relation of the fields; bit-provenance analysis of conversions and hashing inputs",
      "All values of both fields; three choices of the configurable field types.")

claim("view", "C27",
      "abstract interpretation of entity views with linear arithmetic over list size, window and position; iterations summarised for a generic step",
      "Every list size, window, position, offset and count, with and without run-time checks.")

claim("trace", "C29",
      "typestate and value-flow analysis of recorded events over all paths of lock primitives, transactions, the recorder and the table printer (abstract interpretation)",
      "Every path of every lock primitive and of transactions with 16 permission sets in builds with tracing; any buffer size and position; a generic row of "
      "the table for 0 to 3 components.")


# Obligations of other properties that a property relies on: "module:property" or "module:property/rule". A violation of one of them breaks the
# property as stated (e.g. readers and commits do not exclude each other if a transaction returns its read access twice).
SUPPORT = {
    "C01": "tx:C08 tx:C11/published-under-commit-lock tx:C10 ops:C10",
    "C02": "tx:C08 types:C16",
    "C03": "tx:C10 ops:C10",
    "C07": "locks:C06/try-never-waits",
    "C08": "locks:C01/release-by-one-step locks:C02/writer-release locks:C06/result life:C34/kept-alive life:C34/ended-with-last",
    "C10": "tx:C11/published-under-commit-lock types:C16 types:C15/refused types:C15/result-type",
    "C11": "tx:C13 tx:C10",
    "C12": "ops:C13/change-is-flagged tx:C10",
    "C13": "tx:C11/published-part types:C15/result-type",
    "C17": "ops:C19",
    "C18": "ops:C26 tx:C22/free-list",
    "C19": "ops:C20 ops:C21 ops:C31/state-after ops:C10",
    "C22": "ops:C20 ops:C21 tx:C12 tx:C13",
    "C23": "tx:C24/queue-emptied",
    "C25": "types:C30/shared-state",
    "C26": "tx:C12 tx:C13",
    "C31": "tx:C12 tx:C13",
    "C33": "types:C30/shared-state",
    "C34": "types:C16/same-transaction",
}
