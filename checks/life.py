"""C24 (observers), C25 (nesting), C33 (ids), C34 (lifetime): scenarios around whole transactions."""
import itertools
from .world import *
from .lifetab import *

RULES = {
    "C24": {
        "watch-adds-one": "watching appends exactly one new, empty queue to the list of its kind of event and returns a handle to it",
        "stop-removes-one": "stopping removes exactly the queue of that observer and leaves every other list as it was",
        "poll-first-in-first-out": "polling returns the oldest queued event and removes just that one; it fails only without events",
    },
    "C25": {
        "refused-iff": "a transaction is refused exactly if one is active on the instance on this thread or the limit is reached",
        "refusal-leaves-nothing": "a refused start makes no lock request and changes no bookkeeping",
        "bookkeeping": "starting adds exactly this instance to the thread's list, ending removes exactly it, wherever it is in the list",
        "per-thread": "what starting and ending record non-atomically belongs to the thread",
    },
    "C33": {
        "one-atomic-step": "every id is the result of exactly one atomic increment",
        "process-wide": "the counter is one variable for the whole process, at least 32 bits wide",
        "never-changed": "an id is assigned once, and every lock of a transaction reports it; instances cannot be copied",
    },
    "C34": {
        "kept-alive": "no lock is released and no transaction destroyed while a lock object refers to the transaction",
        "ended-with-last": "when the last lock object is gone, the transaction has ended",
        "same-transaction": "a derived lock refers to the transaction of the lock it was derived from",
        "not-copyable": "transactions can be neither copied nor moved",
    },
}
PIDS = tuple(RULES)
ACT, CNT = ("G", "Tecs::activeTransactions"), ("G", "Tecs::activeTransactionsCount")
UNLOCKS = ("ReadUnlock", "WriteUnlock")


class Many(World):
    """several instances; lock primitives are only recorded"""

    def call(self, fid, fn, this, args, dest):
        if fn["n"] == "Trace" and "TraceInfo" in fn["q"]:
            return (VOID,)
        if fn["n"] in PRIMS and fn["q"].startswith("Tecs::ComponentIndex"):
            I = self.I
            k = (this.a[0], this.a[1]) if isT(this, "ref") else None
            I.event("prim", fn["n"], k)
            return (1 if fn["n"] in ("ReadLock", "WriteLock") else VOID,)
        return None


def shape(v, n):
    return dict(v.a[1]).get(n) if isT(v, "obj") else None


def lock_of(v):
    if isT(v, "obj") and "val" in dict(v.a[1]) and "has" in dict(v.a[1]):
        return shape(v, "val")
    return v


# ---- C34 ----
def lifetime(prog, name, rec):
    w = World(prog, base.Rec(), name, rules=False)
    w.I.fresh_thread = True
    kind, what = name.split("_", 1)
    expr = (DERIVE if kind != "inside" else INSIDE)[what][1]
    fn = "scenario: " + expr
    for p in w.R.run(name):
        pos = {}
        for i, e in enumerate(p.events):
            if e[0] == "mark":
                pos.setdefault(e[1], []).append(i)
        if "started" not in pos:
            rec.undecided("C34", "kept-alive", fn, f"the transaction does not start ({p.kind})")
            continue
        s = pos["started"][0]
        raw = next((e for e in p.events if e[0] == "rawshare"), None)
        if raw:
            rec.violation("C34", "kept-alive", prog.loc(raw[-1]), f"'{expr}' refers to the transaction without sharing its ownership")
            continue
        if what.startswith("try_") and "alive" not in pos and p.kind != "stop":
            continue
        if "alive" not in pos:
            rec.undecided("C34", "kept-alive", fn, f"the scenario ends early ({p.kind} {show(p.val) if isT(p.val) else p.val})")
            continue
        held = {}
        for e in p.events[:s]:
            if e[0] == "prim":
                if e[1] in UNLOCKS:
                    held.pop(e[2], None)
                else:
                    held[e[2]] = 1
        rel = [i for i, e in enumerate(p.events) if i > s and (e[0] == "prim" or e[0] == "free")]
        last = pos["alive"][-1]
        early = [p.events[i] for i in rel if i < last and (p.events[i][0] == "prim" or p.events[i][0] == "free" and is_tx(p, p.events[i]))]
        rec.require("C34", not early, "kept-alive", prog.loc(early[0][-1]) if early else fn,
                    f"in '{expr}' the transaction {'is destroyed' if early and early[0][0] == 'free' else 'gives up access'} while a lock still refers to it")
        if kind == "inside":
            pass
        elif "dead" not in pos:
            rec.undecided("C34", "ended-with-last", fn, "the scenario ends early")
        elif not early:
            d = pos["dead"][-1]
            freed = {e[2] for i, e in enumerate(p.events) if last < i < d and e[0] == "prim" and e[1] in UNLOCKS}
            miss = [lockname(k) for k in held if k not in freed]
            rec.require("C34", not miss, "ended-with-last", fn,
                        f"after the last lock of '{expr}' is gone the transaction still holds " + ", ".join(miss))
        ob = {e[1]: e[2][0][1] for e in p.events if e[0] == "observe"}
        a, b = shape(lock_of(ob.get("first")), "base"), shape(lock_of(ob.get("last")), "base")
        if a is not None and b is not None:
            rec.require("C34", a is b, "same-transaction", fn, f"'{expr}' refers to {show(b)[:60]}, not to {show(a)[:60]}")
        elif "first" in ob and "last" in ob:
            rec.undecided("C34", "same-transaction", fn, "the lock's reference to its transaction is not recognised")
        ids(prog, p, rec)
    rec.count("lifetime scenarios")


def is_tx(p, e):
    """is the object destroyed by this free event a transaction (has access flags / is referred to by a lock)?"""
    return any(x[0] == "wr" and x[1] == e[1] and x[2] and x[2][0] in ("writeAccessedFlags", "transactionId") for x in p.events)


def traits(prog, rec):
    w = World(prog, base.Rec(), "traits", rules=False)
    for p in w.R.run("traits"):
        got = [e[1] for e in p.events if e[0] == "mark" and e[1] != "stop"]
        t = [g for g in got if g.startswith("ECS")]
        rec.require("C33", not t, "never-changed", "Tecs::ECS", ", ".join(t) + ": the copy has the same instance id")
        t = [g for g in got if not g.startswith("ECS")]
        rec.require("C34", not t, "not-copyable", "Tecs::Transaction", ", ".join(t))


# ---- C33 ----
def ids(prog, p, rec):
    """assigned once"""
    seen = {}
    for e in p.events:
        if e[0] == "wr" and e[2]:
            if e[1] == ECS and e[2][0] == "ecsId":
                rec.violation("C33", "never-changed", prog.loc(e[-1]), "the id of an existing instance is changed")
            if e[2][0] == "transactionId":
                seen.setdefault(e[1], []).append(e)
    for r, es in seen.items():
        rec.require("C33", len(es) == 1, "never-changed", prog.loc(es[-1][-1]), f"the id of a transaction is assigned {len(es)} times")


def counter_of(prog, I, p, v, rec, what):
    """the global counter whose atomic increment produced v"""
    rm = [e for e in p.events if e[0] == "atomic" and e[1] == "rmw" and isT(e[2], "ref") and e[2].a[0][0] == "G"]
    w = 64
    while isT(v, "trunc"):
        w = min(w, v.a[0])
        v = v.a[1]
    hits = []
    for e in rm:
        d = lin_add(v, e[3], -1) if linear(v) and linear(e[3]) else None
        if isinstance(d, int) and d % 2**64 in (0, 1, 2**64 - 1):
            hits.append(e)
    if len(hits) == 1:
        e = hits[0]
        rec.ok("C33", "one-atomic-step")
        root = e[2].a[0]
        step, at = lin_parts(e[3]) if linear(e[3]) else (None, {})
        if len(at) == 1 and all(k == 1 and a.op in ("init", "fresh") for a, k in at.items()):
            rec.require("C33", step % 2**64 != 0, "one-atomic-step", prog.loc(e[-1]), f"the counter of {what} ids does not advance")
        n = sum(1 for x in rm if x[2] is e[2])
        rec.require("C33", w >= 32 and not any(x[0] == "atomic" and x[1] == "store" and x[2] is e[2] for x in p.events), "process-wide",
                    prog.loc(e[-1]), f"{what} id is cut to {w} bits" if w < 32 else f"the counter of {what} ids is overwritten")
        return root
    gl = [e for e in p.events if e[0] in ("wr", "atomic") and (e[1] if e[0] == "wr" else e[2].a[0])[0] == "G"]
    if any(e[0] == "atomic" and e[1] in ("load", "store") for e in gl) and not rm or isinstance(v, int) or \
            isT(v) and not rm and depends_on_global(v) or not hits and isT(v, "fresh") and v.a[0] == "others":
        e = next((e for e in gl), None)
        rec.violation("C33", "one-atomic-step", prog.loc(e[-1]) if e else what, f"the {what} id is {show(v) if isT(v) else v}, not the result of an atomic increment")
    else:
        rec.undecided("C33", "one-atomic-step", what + " id", f"{show(v) if isT(v) else v}")
    return None


def depends_on_global(v):
    if v.op == "init":
        return isinstance(v.a[0], tuple) and v.a[0][:1] == ("G",)
    if v.op == "fresh":
        return v.a[0] == "others"
    return any(isT(x) and depends_on_global(x) for x in v.a) or v.op == "lin" and any(
        isT(t) and depends_on_global(t) for x in v.a if isinstance(x, tuple) for y in x for t in (y if isinstance(y, tuple) else (y,)))


def check_counter(prog, roots, rec, what):
    roots = {r for r in roots if r}
    if not roots:
        return
    rec.require("C33", len(roots) == 1, "process-wide", what + " ids",
                f"{what} ids come from different counters: " + ", ".join(str(r[1]) for r in roots))
    for r in roots:
        for g in prog.globals.values():
            if g["n"] != r[1]:
                continue
            t = prog.types[g["t"]]
            size = t.get("size") or t.get("sz")
            bad = "is a thread-local variable" if g["tls"] else None
            if "<" in g["n"].split("::")[-2:][0] and g["n"].startswith("Tecs::") and "::" in g["n"][6:] and not g.get("local"):
                bad = "belongs to one instantiation of a template"
            rec.require("C33", bad is None, "process-wide", prog.loc(g["l"]), f"the counter of {what} ids {bad}")


def others(w):
    """between any two accesses of this thread other threads may have moved a process-wide counter"""
    def hook(I, fn, this, args):
        if isT(this, "ref") and this.a[0][0] == "G" and not this.a[1] and linear(I.mem.get(this.a[0], mk("init", this.a[0]))):
            v = I.fresh("others", this.a[0][1])
            ATOMB[v] = (0, 2**62)
            I.mem[this.a[0]] = v
        return None
    w.R.m.atomic_hook = hook


def idscen(prog, rec, thorough):
    cfgheader = "header" in prog.name
    # instances
    roots = []
    for name in ("make_w", "make_w2"):
        w = Many(prog, base.Rec(), name, rules=False)
        others(w)
        for p in w.R.run(name):
            ob = [e for e in p.events if e[0] == "observe"]
            v = shape(ob[0][2][0][1], "ecsId") if ob else None
            if v is None:
                rec.undecided("C33", "one-atomic-step", name, "instance id not recognised")
                continue
            roots.append(counter_of(prog, w.I, p, v, rec, "instance"))
    check_counter(prog, roots, rec, "instance")
    w = World(prog, base.Rec(), "iid", rules=False)
    for p in w.R.run("iid"):
        v = next(e for e in p.events if e[0] == "observe")[2][0][1]
        while isT(v, "trunc"):
            v = v.a[1]
        rec.require("C33", v is sel(R0, "ecsId") or None, "never-changed", "Tecs::ECS::GetInstanceId", f"returns {show(v) if isT(v) else v}")
    if cfgheader:
        return
    roots = []
    for name in ("tid_w", "tid_ar", "tid_w2", "tid_life"):
        w = Many(prog, base.Rec(), name, rules=False)
        others(w)
        for p in w.R.run(name):
            ob = [e for e in p.events if e[0] == "observe"]
            if not ob:
                rec.undecided("C33", "one-atomic-step", name, "no transaction started")
                continue
            v = ob[0][2][0][1]
            roots.append(counter_of(prog, w.I, p, v, rec, "transaction"))
            for e in ob[1:]:
                rec.require("C33", e[2][0][1] is v, "never-changed", "Tecs::Lock::GetTransactionId",
                            f"a derived lock reports {show(e[2][0][1]) if isT(e[2][0][1]) else e[2][0][1]}")
            ids(prog, p, rec)
    check_counter(prog, roots, rec, "transaction")


# ---- C24 ----
def after_mark(p, name):
    i = next((i for i, e in enumerate(p.events) if e[0] == "mark" and e[1] == name), None)
    return p.events[i + 1:] if i is not None else []


def lists_unchanged(prog, w, p, i, rec, rule, fn):
    I = w.I
    for j in range(4):
        if j == i:
            continue
        v = getp(p.mem, ("eventLists", j, "observers"))
        b = sel(sel(sel(R0, "eventLists"), j), "observers")
        rec.require("C24", unwrap(v) is b, rule, fn, f"{EVENTS[i]}: the observers of {EVENTS[j]} change too")


def observers(prog, name, rec):
    kind, i = name.split("_")
    i = int(i)
    w = World(prog, base.Rec(), name, rules=False)
    I = w.I
    getp.I = I
    base_list = sel(sel(sel(R0, "eventLists"), i), "observers")
    n0 = mk("size", base_list)
    ATOMB.setdefault(n0, (0, 2**32))
    paths = w.R.run(name)
    if not paths:
        rec.undecided("C24", "watch-adds-one", name, "no path")
    for p in paths:
        I.restore(p.snap)
        ev = after_mark(p, "begin")
        ob = {e[1]: e[2] for e in ev if e[0] == "observe"}
        reached = any(e[0] == "mark" and e[1] == "done" for e in ev)
        if kind in ("watch", "stop", "stop2", "poll") and not reached:
            rec.undecided("C24", "watch-adds-one", name, f"scenario ends early ({p.kind})")
            continue
        if kind == "watch":
            fn = f"Tecs::Lock::Watch<{EVENTS[i]}>"
            v = getp(p.mem, ("eventLists", i, "observers"))
            lists_unchanged(prog, w, p, i, rec, "watch-adds-one", fn)
            if unwrap(v) is base_list:
                rec.violation("C24", "watch-adds-one", fn, "the list of observers is not changed")
                continue
            s = v if isT(v, "seq") else None
            ok = s is not None and s.a[0] is base_list and s.a[1] == 0
            st = [o for o in s.a[3]] if ok else []
            if not ok or any(o[0] != "st" for o in st):
                rec.undecided("C24", "watch-adds-one", fn, f"list of observers is {show(v)[:120]}")
                continue
            one = len(st) == 1 and lin_add(s.a[2], n0, -1) == 1 and I.decide(teq(st[0][1], n0)) is True
            rec.require("C24", one, "watch-adds-one", fn, f"{len(st)} entries of the list of observers are set, it grows by {lin_add(s.a[2], n0, -1)}")
            if not one:
                continue
            q = st[0][2]
            new = isT(q, "ref") and any(e[0] == "heapnew" and e[1] == q.a[0] for e in ev)
            rec.require("C24", new, "watch-adds-one", fn, f"the queue registered is not a new one: {show(q)[:80]}")
            if new:
                qs = I.as_seq(p.mem.get(q.a[0]))
                rec.require("C24", qs is not None and lin_add(qs.a[2], qs.a[1], -1) == 0, "watch-adds-one", fn, "the new queue is not empty")
                o = ob["watched"][0][1]
                wk = shape(o, "eventListWeak")
                rec.require("C24", isT(wk, "wp") and wk.a[0] is q if wk is not None else None, "watch-adds-one", fn,
                            f"the observer returned refers to {show(wk)[:80] if isT(wk) else wk}")
                rec.require("C24", ob["watched"][1][1] == 1, "watch-adds-one", fn, "the observer returned is not valid")
        elif kind in ("stop", "stop2"):
            fn = f"Tecs::Lock::StopWatching<{EVENTS[i]}>"
            v = getp(p.mem, ("eventLists", i, "observers"))
            lists_unchanged(prog, w, p, i, rec, "stop-removes-one", fn)
            lk = mk("sel", sel(mk("init", ("in", "ob")), "eventListWeak"), "locked")
            if unwrap(v) is base_list:
                none = I.decide(teq(lk, NULL))
                if none is not True and any(e[0] == "loop" for e in ev):
                    rec.undecided("C24", "stop-removes-one", fn, "list searched in a loop")
                    continue
                gone = any_expired(I, lk) or not_found(I, base_list, n0, lk)
                rec.require("C24", True if none is True or gone else False, "stop-removes-one", fn, "the observer's queue stays in the list")
                continue
            s = v if isT(v, "seq") else None
            b = s.a[0] if s is not None else v
            if isT(b, "filtered"):
                src, lo, hi, x = b.a
                full = unwrap(src) is base_list and lo == 0 and I.decide(teq(hi, n0)) is True
                rec.require("C24", full, "stop-removes-one", fn, "the whole list of observers is not searched")
                same = x is lk or I.decide(teq(x, lk)) is True
                rec.require("C24", same or (None if not isT(x) or "ob" in show(x) else False), "stop-removes-one", fn,
                            f"removes {show(x)[:80]} instead of the observer's queue")
                short = None if s is None else True if isT(s.a[2], "rmend") or I.decide(teq(s.a[2], mk("rmend", *b.a))) is True else \
                    False if I.decide(teq(s.a[2], n0)) is True else None
                rec.require("C24", short, "stop-removes-one", fn, "the list is not shortened by what was removed")
            elif isT(b, "erased") and s is not None and s.a[1] == 0 and not s.a[3] and unwrap(b.a[0]) is base_list:
                k = b.a[1]
                f = isT(k, "found")
                if f:
                    src, lo, hi, x = k.a
                    full = unwrap(src) is base_list and lo == 0 and I.decide(teq(hi, n0)) is True
                    rec.require("C24", full, "stop-removes-one", fn, "the whole list of observers is not searched")
                    same = x is lk or I.decide(teq(x, lk)) is True
                    rec.require("C24", same or (None if not isT(x) or "ob" in show(x) else False), "stop-removes-one", fn,
                                f"removes {show(x)[:80]} instead of the observer's queue")
                elif isinstance(k, int):
                    rec.violation("C24", "stop-removes-one", fn, f"removes the observer at position {k} whoever it belongs to")
                else:
                    rec.undecided("C24", "stop-removes-one", fn, f"removes the observer at {show(k)[:100]}")
            elif s is not None and b is base_list and s.a[1] == 0 and isT(s.a[2], "found") and not s.a[3]:
                rec.require("C24", I.decide(teq(lin_add(s.a[2], 1), n0)) is True, "stop-removes-one", fn,
                            "the observers after the observer's queue are removed too")
            else:
                e1 = [e for e in ev if e[0] in ("erase", "erase1", "pop")]
                cl = s is not None and lin_add(s.a[2], s.a[1], -1) == 0
                if cl and I.decide(teq(n0, 0)) is not True:
                    rec.violation("C24", "stop-removes-one", fn, "all observers are removed")
                elif e1 and e1[0][0] == "pop":
                    rec.violation("C24", "stop-removes-one", fn, "an observer is removed without looking whose it is")
                else:
                    rec.undecided("C24", "stop-removes-one", fn, f"list of observers is {show(v)[:120]}")
        elif kind == "poll":
            fn = f"Tecs::Observer<{EVENTS[i]}>::Poll"
            lk = mk("sel", sel(mk("init", ("in", "ob")), "eventListWeak"), "locked")
            r = ob["polled"][0][1]
            Q = ("P", lk)
            q0 = mk("init", Q)
            nq = mk("size", q0)
            ATOMB.setdefault(nq, (0, 2**40))
            v = p.mem.get(Q, q0)
            first = sel(q0, ("i", 0))
            if r == 1:
                s = I.as_seq(v)
                if s is not None and isT(s.a[0], "erased") and s.a[0].a[1] == 0 and unwrap(s.a[0].a[0]) is q0 and s.a[1] == 0 and not s.a[3]:
                    v = seq(q0, 1, lin_add(s.a[2], 1), ())
                    s = v
                ok = s is not None and s.a[0] is q0 and s.a[1] == 1 and not s.a[3] and I.decide(teq(s.a[2], nq)) is True
                if unwrap(v) is q0:
                    rec.violation("C24", "poll-first-in-first-out", fn, "the event returned stays in the queue")
                elif not ok:
                    two = s is not None and (s.a[0] is q0 or I.decide(teq(lin_add(s.a[2], s.a[1], -1), lin_add(nq, -1))) is False or
                                             lin_add(s.a[2], s.a[1], -1) == 0 and I.decide(teq(nq, 1)) is not True)
                    rec.require("C24", False if two else None, "poll-first-in-first-out", fn, f"the queue is {show(v)[:100]} afterwards")
                else:
                    rec.ok("C24", "poll-first-in-first-out")
                e = I.load(ref(("in", "event")))
                for f in ("type", "entity") + (("component",) if i else ()):
                    a, b = I.select(e, f), sel(first, f)
                    if f == "entity":
                        same = all(I.select(a, x) is sel(b, x) for x in ("generation", "index"))
                    elif f == "component":
                        same = a is b or I.select(a, "v") is sel(b, "v")
                    else:
                        same = a is b
                    rec.require("C24", same, "poll-first-in-first-out", fn, f"{f} of the event returned is {show(a)[:80] if isT(a) else a}, not that of the oldest event")
                rec.require("C24", I.decide(tle(1, nq)) is not False, "poll-first-in-first-out", fn, "an event is returned from an empty queue")
            elif r == 0:
                none = I.decide(teq(lk, NULL)) is True or any_expired(I, lk)
                empty = I.decide(teq(nq, 0)) is True
                rec.require("C24", none or empty, "poll-first-in-first-out", fn, "polling fails although an event is queued")
                rec.require("C24", unwrap(v) is q0, "poll-first-in-first-out", fn, "a failing poll changes the queue")
            else:
                rec.undecided("C24", "poll-first-in-first-out", fn, "result not decided")
        elif kind == "null":
            r = next(e for e in p.events if e[0] == "observe")[2][0][1]
            rec.require("C24", r == 0, "watch-adds-one", "Tecs::Observer", "an observer without queue is reported valid")
    rec.count("observer scenarios")


def not_found(I, base_list, n0, lk):
    """a search of the whole list for the queue came to its end"""
    for t, v in I.facts.atoms.items():
        if v and t.op == "eq":
            for k in t.a:
                if isT(k, "found") and unwrap(k.a[0]) is base_list and k.a[1] == 0 and I.decide(teq(k.a[2], n0)) and k.a[3] is lk:
                    return I.decide(teq(k, n0)) is True
    return False


def any_expired(I, lk):
    for t in (mk("sel", lk.a[0], "expired"), mk("expired", lk.a[0])):
        try:
            if I.decide(tnot(teq(t, 0))) is True:
                return True
        except Exception:
            pass
    return False


# ---- C25 ----
def nest_state(prog, name, c, rec, limit=MAXACTIVE):
    """one transaction, with c transactions already active on the thread"""
    what = f"{c} transactions active on this thread, limit {limit}"
    ID = sel(R0, "ecsId")
    ACT0, ACT1 = mk("init", ("active",)), mk("init", ("active2",))
    fn = "Tecs::BaseTransaction::BaseTransaction"
    names = {g["n"] for g in prog.globals.values() if not g.get("local")}
    if ACT[1] not in names or CNT[1] not in names:
        rec.count("bookkeeping not recognised; decided by sequences only")
        return

    def setup(W):
        W.I.mem[CNT] = c
        W.I.mem[ACT] = ACT0

    def entries(n):
        a = I.mem[ACT]
        r = [I.select(a, ("i", k)) for k in range(n)]
        return r

    def eqs(base_, n):
        return [I.decide(teq(sel(base_, ("i", k)), ID)) for k in range(n)]

    def prims():
        return [e for e in I.events() if e[0] == "prim"]

    def mark(W, m):
        if m == "refused":
            e = eqs(ACT0, c)
            rec.require("C25", c == limit or any(x is True for x in e), "refused-iff", fn,
                        f"{what}: a transaction is refused although none is active on the instance")
            p = prims()
            rec.require("C25", not p, "refusal-leaves-nothing", prog.loc(p[0][-1]) if p else fn, f"{what}: a refused transaction requests locks")
            same = I.mem[CNT] == c and all(x is sel(ACT0, ("i", k)) for k, x in enumerate(entries(c)))
            rec.require("C25", same, "refusal-leaves-nothing", fn, f"{what}: a refused transaction changes the thread's list of transactions")
        elif m == "started":
            e = eqs(ACT0, c)
            rec.require("C25", c < limit, "refused-iff", fn, f"{what}: the limit is not enforced")
            bad = [k for k, x in enumerate(e) if x is not False]
            rec.require("C25", not bad, "refused-iff", fn, f"{what}: a transaction starts although one (entry {bad[:1]} of the thread's list) is active on the instance")
            n = I.mem[CNT]
            if not isinstance(n, int):
                rec.undecided("C25", "bookkeeping", fn, f"count is {show(n)}")
                return
            if n != c + 1:
                rec.violation("C25", "bookkeeping", fn, f"{what}: {n} transactions are recorded after starting one")
                return
            got = entries(n)
            want = [sel(ACT0, ("i", k)) for k in range(c)] + [ID]
            rec.require("C25", sorted(map(id, got)) == sorted(map(id, want)), "bookkeeping", fn,
                        f"{what}: the list is {[show(x) if isT(x) else x for x in got]} after the start")
        elif m == "havoc":
            # other transactions of this thread may have ended and started: the instance is anywhere in the list
            opts = [(n, q) for n in range(1, min(limit, 4) + 1) for q in range(n)]
            n, q = opts[I.choose(len(opts))]
            a = ACT1
            for k in range(n):
                if k == q:
                    a = I.update(a, (("i", k),), ID)
                else:
                    I.facts.assume(tnot(teq(sel(ACT1, ("i", k)), ID)))
            I.mem[CNT], I.mem[ACT] = n, a
            I.mon["nq"] = (n, q)
        elif m == "ended":
            n, q = I.mon["nq"]
            want = [sel(ACT1, ("i", k)) for k in range(n) if k != q]
            f2 = "Tecs::BaseTransaction::~BaseTransaction"
            k = I.mem[CNT]
            if not isinstance(k, int):
                rec.undecided("C25", "bookkeeping", f2, f"count is {show(k)}")
                return
            w2 = f"this transaction at position {q} of {n} in the thread's list"
            if k != n - 1:
                rec.violation("C25", "bookkeeping", f2, f"{w2}: {k} transactions remain recorded")
                return
            got = entries(k)
            rec.require("C25", sorted(map(id, got)) == sorted(map(id, want)), "bookkeeping", f2,
                        f"{w2}: after the end the list is {[show(x) if isT(x) else x for x in got]}")

    W = Many(prog, base.Rec(), name, rules=False, on_mark=mark, setup=setup)
    I = W.I
    paths = W.R.run(name)
    for p in paths:
        if p.kind != "stop":
            rec.violation("C25", "refused-iff", fn, f"{what}: ends with {p.kind} {show(p.val) if isT(p.val) else p.val}")
        per_thread(prog, p, rec)
    rec.count("nesting scenarios")


def per_thread(prog, p, rec):
    g = {x["n"]: x for x in prog.globals.values()}
    for e in p.events:
        if e[0] == "wr" and e[1][0] == "G":
            x = g.get(e[1][1])
            if x is None:
                continue
            t = prog.types[x["t"]]
            rq = prog.records[t["rec"]]["q"] if t["k"] == "rec" else ""
            at = rq.startswith("std::atomic") or rq.startswith("std::__atomic")
            rec.require("C25", x["tls"] or at, "per-thread", prog.loc(e[-1]), f"{x['n']} is written without synchronisation by every thread")


def nest_seq(prog, idx, seq, rec):
    def setup(W):
        W.I.fresh_thread = True
        W.I.mem.pop(CNT, None)
        ids = [sel(mk("init", ECS if c == "w" else ("ecs", c)), "ecsId") for c in "wxyz"]
        for a, b in itertools.combinations(ids, 2):
            W.I.facts.assume(tnot(teq(a, b)))

    W = Many(prog, base.Rec(), f"seq_{idx}", rules=False, setup=setup)
    paths = W.R.run(f"seq_{idx}")
    text = " ".join(seq)
    fn = "Tecs::BaseTransaction"
    for p in paths:
        active, k, prims = set(), 0, 0
        pend = None
        for e in p.events:
            if e[0] == "prim" and pend is not None:
                prims += 1
            if e[0] != "mark":
                continue
            m = e[1].split(" ")
            if m[0] == "try":
                pend, prims = m[1], 0
            elif m[0] in ("ok", "no"):
                c = m[1]
                want = c not in active and len(active) < MAXACTIVE
                rec.require("C25", (m[0] == "ok") == want, "refused-iff", fn,
                            f"sequence {text}: start on {c} is {'refused' if m[0] == 'no' else 'not refused'} while transactions are active on "
                            f"{sorted(active) or 'nothing'} (limit {MAXACTIVE})")
                if m[0] == "no" and not want:
                    rec.require("C25", prims == 0, "refusal-leaves-nothing", fn, f"sequence {text}: the refused start on {c} uses locks")
                pend = None
                if (m[0] == "ok") != want:
                    break
                if want:
                    active.add(c)
            elif m[0] == "ended":
                active.discard(m[1])
        else:
            if p.kind != "stop":
                rec.violation("C25", "refused-iff", fn, f"sequence {text}: ends with {p.kind} {show(p.val) if isT(p.val) else p.val}")
        per_thread(prog, p, rec)
    rec.count("sequences of starts and ends")


EXTRA = (f"-DTECS_MAX_ACTIVE_TRANSACTIONS_PER_THREAD={MAXACTIVE}",)


PIDS = {"life": ["C34", "C33"], "traits": ["C34", "C33"], "ids": ["C33"], "obs": ["C24"], "state": ["C25"], "seq": ["C25"]}


def scenario(item):
    kind, drv, cfg, extra, arg = item
    rec = base.Rec()
    prog = base._progs[(drv, cfg, extra)]
    pids = PIDS[kind]
    slow = 0
    for a in arg if kind == "seq" else [arg]:
        try:
            if slow > 1:
                raise Undecided("the previous sequences were beyond reach")
            if kind == "life":
                lifetime(prog, a, rec)
            elif kind == "traits":
                traits(prog, rec)
            elif kind == "ids":
                idscen(prog, rec, False)
            elif kind == "obs":
                observers(prog, a, rec)
            elif kind == "state":
                nest_state(prog, *a[:2], rec, *a[2:])
            else:
                nest_seq(prog, a[0], a[1], rec)
        except (Undecided, LookupError) as e:
            slow += "time limit" in str(e)
            rid = {"life": "kept-alive", "traits": "not-copyable", "ids": "one-atomic-step", "obs": "poll-first-in-first-out"}.get(kind, "refused-iff")
            for pid in pids:
                r = rid if rid in RULES[pid] else "never-changed"
                rec.undecided(pid, r, f"{kind} {a if kind != 'seq' else ' '.join(a[1])} ({cfg})", str(e))
    return rec


def collect(thorough, note):
    items = []
    for cfg in ["checked", "header"] + (["unchecked", "cxx17", "tracing"] if thorough else []):
        try:
            prog = base.export("life", cfg)
        except base.Broken as e:
            if cfg == "checked":
                raise
            note("configuration", cfg, str(e))
            continue
        for d in DERIVE:
            items += [("life", "life", cfg, (), f"{k}_{d}") for k in ("life", "first", "throw")]
        items += [("life", "life", cfg, (), "inside_" + d) for d in INSIDE]
        items += [("traits", "life", cfg, (), "traits"), ("ids", "life", cfg, (), "ids")]
        if cfg != "header" or thorough:
            for i in range(4):
                items += [("obs", "life", cfg, (), f"{k}_{i}") for k in ("watch", "stop", "stop2", "poll", "null")]
    for cfg in ["checked"] + (["unchecked", "tracing", "cxx17"] if thorough else []):
        try:
            base.export("nest", cfg, EXTRA)
        except base.Broken as e:
            if cfg == "checked":
                raise
            note("configuration", cfg, str(e))
            continue
        for n in ("nest_any", "nest_ar"):
            items += [("state", "nest", cfg, EXTRA, (n, c)) for c in range(MAXACTIVE + 1)]
        s = list(enumerate(sequences()))
        items += [("seq", "nest", cfg, EXTRA, s[i:i + 20]) for i in range(0, len(s), 20)]
    if thorough:
        base.export("nest", "checked")
        items += [("state", "nest", "checked", (), ("nest_any", c, 64)) for c in (0, 1, 2, 8, 62, 63, 64)]
    if base.WANT:
        items = [i for i in items if base.WANT & set(PIDS[i[0]])]
    return base.pmap(scenario, items)


ASSUME = [
    "std::shared_ptr, std::weak_ptr, std::vector, std::deque and std::atomic behave as the C++ standard says",
    "instance ids do not wrap around (2^64 instances); GetInstanceId() and entity ids show the low bits chosen by the configuration",
]
EXPLAIN = {
    "C24": "Watching, stopping and polling from an arbitrary list of observers and arbitrary queues, for every kind of event.",
    "C25": "Starting and ending a transaction with every possible content of the thread's list of active transactions up to the limit "
           "(the instance at any position or absent), and every sequence of up to 6 starts and ends on four instances on a fresh thread.",
    "C33": "The value flow of every id from one atomic increment of a process-wide counter to what the locks report.",
    "C34": "Every way to derive a lock (17 expressions x derived lock dropped first, last, or by an exception) and every operation taking a "
           "lock; reference counts are interpreted, release of access is located between the last use and the end of the last lock.",
}
