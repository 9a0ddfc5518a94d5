"""C01-C06: the lock primitives of ComponentIndex, all paths, lock words as typestates."""
from engine.scenario import *
from engine.models import Models, ORD
from . import base

MAX = 2**32 - 1
PRIMS = ("ReadLock", "ReadUnlock", "WriteLock", "CommitLock", "CommitUnlock", "WriteUnlock")
STRONG_ACQ = ("acquire", "acq_rel", "seq_cst", "consume")
STRONG_REL = ("release", "acq_rel", "seq_cst")

RULES = {
    "C01": {
        "grant-by-one-step": "ReadLock obtains access by exactly one atomic increment of the reader count from a value that is not the locked state",
        "release-by-one-step": "ReadUnlock gives back by exactly one atomic decrement",
        "commit-excludes-readers": "CommitLock returns only after atomically replacing a reader count of zero by the locked state; nothing else enters or leaves that state",
        "reader-word-typestate": "every change of the reader word is one of: count+1, count-1, 0->locked, locked->0",
        "who-may-write": "the reader word is modified only by the lock primitives",
    },
    "C02": {
        "writer-acquire": "WriteLock obtains access by one atomic free->held step",
        "writer-typestate": "every change of the writer word is one of: free->held, held->commit, commit->held, held/commit->free, made by the holder",
        "writer-release": "WriteUnlock leaves the writer word free, exactly once; CommitUnlock leaves it held",
        "who-may-write": "the writer word is modified only by the lock primitives",
    },
    "C03": {
        "acquire": "every granting step is at least an acquire operation (or followed by an acquire fence before returning)",
        "release": "every releasing step is at least a release operation (or preceded by a release fence)",
    },
    "C04": {
        "notify": "after a change that may let a sleeper proceed, notify_all on that word happens before returning",
        "wait-blocking": "a request sleeps only on a value just observed in that word that prevents it from proceeding",
    },
    "C05": {
        "reader-checks-commit": "ReadLock admits a reader only after observing, in the same attempt, that no commit has begun",
        "commit-announced-first": "CommitLock enters the committing phase before it waits for or locks out readers",
        "priority-kept": "the committing phase is left only after the commit lock was given back",
    },
    "C06": {
        "result": "true is returned exactly when the access was obtained; a refused request changed nothing",
        "try-never-waits": "a non-blocking request does not wait, yield or try again after a refusal",
        "block-until-granted": "a blocking request returns only with the access obtained",
    },
}


class Env:
    """Environment model of the two lock words. own_* is the value while this thread owns the word, None otherwise."""

    def __init__(self, WL=None, WC=None, RL=None):
        self.WL, self.WC, self.RL = WL, WC, RL
        self.reps = [0, 1, 2, 5, 2**31, MAX - 2]


class LockModels(Models):
    def __init__(self, env, report):
        super().__init__()
        self.env = env
        self.report = report
        self.atomic_hook = self.at

    def word(self, this):
        p = this.a[1]
        return p[-1][0] if p and p[-1] in ("readers", "writer") else None

    def region(self, I, w):
        own = I.mon.get("own_" + w)
        if own is not None:
            return [own]
        e = self.env
        if w == "w":
            return [0, e.WL, e.WC] if e.WL is not None and e.WC is not None else [0] if e.WL is None else [0, e.WL]
        if I.mon.get("reader"):
            return [x for x in e.reps if x]
        if I.mon.get("own_w") is not None or e.RL is None:
            return list(e.reps)
        return e.reps + [e.RL]

    def pick(self, I, w):
        r = self.region(I, w)
        return r[I.choose(len(r))]

    def refuse(self, I):
        I.mon["refused"] = 1

    def attempt(self, I, loc):
        if I.mon.get("refused") and I.mon.get("try"):
            self.report("C06", "try-never-waits", I, "the request tries again after it was refused")
        I.mon["att"] = 1

    def changed(self, I, w, old, new, order, cas):
        m, e = I.mon, self.env
        loc = I.curloc
        if old == new:
            return
        if w == "r":
            if new == old + 1 and old != e.RL and (e.RL is None or new != e.RL) or (new == 1 and old == 0):
                k = "inc"
            elif new == old - 1 and old != 0 and old != e.RL:
                k = "dec"
            elif old == 0 and e.RL is not None and new == e.RL or (e.RL is None and old == 0):
                k = "lock"
            elif old == e.RL and new == 0 and m.get("own_r") is not None:
                k = "unlock"
            else:
                k = "bad"
        else:
            if old == 0 and (new == e.WL or e.WL is None):
                k = "acq"
            elif old == e.WL and (new == e.WC or e.WC is None and new != 0) and m.get("own_w") is not None:
                k = "commit"
            elif old == e.WC and new == e.WL and m.get("own_w") is not None:
                k = "decommit"
            elif new == 0 and m.get("own_w") is not None:
                k = "rel"
            else:
                k = "bad"
        tr = m.get("tr", ())
        if len(tr) > 8:
            raise Infeasible()
        m["tr"] = tr + ((w, k, old if w == "w" else 0, new if w == "w" or k == "lock" else 0, loc),)
        if k == "bad":
            self.report("C01" if w == "r" else "C02", "reader-word-typestate" if w == "r" else "writer-typestate", I,
                        f"{'readers' if w == 'r' else 'writer'} changes from {old} to {new}, which is no legal transition")
            return
        # effects
        if k == "inc":
            m["reader"] = 1
            self.attempt(I, loc)
            if m.get("op") == "ReadLock":
                if e.WC is not None and m.get("attw") is None:
                    self.report("C05", "reader-checks-commit", I, "a reader is admitted without having observed the writer state in this attempt")
                elif e.WC is not None and m.get("attw") == e.WC:
                    self.report("C05", "reader-checks-commit", I, "a reader is admitted although a commit has been observed to be in progress")
            self.grant(I, order)
        elif k == "acq":
            self.attempt(I, loc)
            m["own_w"] = new
            self.grant(I, order)
        elif k == "lock":
            m["own_r"] = new
            if e.RL is not None and m.get("own_w") != e.WC:
                self.report("C05", "commit-announced-first", I, "readers are locked out before the committing phase was announced")
            self.grant(I, order)
        elif k == "commit":
            m["own_w"] = new
        elif k == "dec":
            m["reader"] = 0
            self.release(I, order)
            if new == 0:
                m["need_r"] = loc
        elif k == "unlock":
            m["own_r"] = None
            self.release(I, order)
            m["need_r"] = loc
        elif k == "decommit":
            if m.get("own_r") is not None and m.get("op") == "WriteUnlock":
                pass
            m["own_w"] = new
            m["need_w"] = loc
        elif k == "rel":
            m["own_w"] = None
            self.release(I, order)
            m["need_w"] = loc

    def grant(self, I, order):
        if order not in STRONG_ACQ or order == "consume":
            I.mon["weak"] = (I.curloc, order)

    def release(self, I, order):
        if order not in STRONG_REL and not I.mon.get("relfence"):
            self.report("C03", "release", I, f"releasing step with memory order {order}")
        else:
            self.report("C03", "release", I, None)

    def at(self, I, fn, this, args):
        w = self.word(this)
        if w is None:
            I.note("atomic object other than the lock words: " + show(this))
            return None
        n, op = fn["n"], fn.get("op")
        e, m = self.env, I.mon

        def order(i):
            return ORD.get(args[i], "?") if i < len(args) and isinstance(args[i], int) else "seq_cst"

        def plain_store(old, new, o, what):
            own = m.get("own_" + w)
            if own is None:
                self.report("C01" if w == "r" else "C02", "reader-word-typestate" if w == "r" else "writer-typestate", I,
                            f"{what} overwrites a lock word that other threads may change concurrently")
                m["own_" + w] = new if w == "w" else None
                return
            self.changed(I, w, own, new, o, False)

        if n == "load" or fn["kind"] == "conv":
            v = self.pick(I, w)
            m["last" + w] = v
            if w == "w":
                m["attw"] = v
            if w == "r" and v == e.RL or w == "w" and (v == e.WC if m.get("op") == "ReadLock" else v != 0):
                if m.get("op") in ("ReadLock", "WriteLock"):
                    self.refuse(I)
            return (v,)
        if n == "store" or op == "=":
            plain_store(None, args[0], order(1) if n == "store" else "seq_cst", "a plain store")
            return (args[0] if op == "=" else VOID,)
        if n == "exchange":
            old = self.pick(I, w)
            self.changed(I, w, old, args[0], order(1), True)
            return (old,)
        if n in ("fetch_add", "fetch_sub") or op in ("++", "--", "+=", "-="):
            old = self.pick(I, w)
            d = args[0] if n.startswith("fetch") or op in ("+=", "-=") else 1
            d = d if n == "fetch_add" or op in ("++", "+=") else -d
            new = (old + d) & MAX
            self.changed(I, w, old, new, order(1), False)
            post = not (n.startswith("fetch") or (op in ("++", "--") and len(fn["params"]) == 1))
            return (new if post else old,)
        if n in ("compare_exchange_strong", "compare_exchange_weak"):
            exp = I.load(args[0])
            if not isinstance(exp, int) or not isinstance(args[1], int):
                raise Undecided("symbolic compare-exchange")
            self.attempt(I, I.curloc)
            reg = self.region(I, w)
            outs = []
            if exp in reg:
                outs.append(("ok", exp))
            others = [x for x in reg if x != exp]
            if n.endswith("weak") and exp in reg:
                others.append(exp)
            if len(others) > 3 and w == "r":  # one representative of each class suffices for a failed exchange
                others = [x for x in others if x in (0, 1, exp, e.RL)] or others[:1]
            outs += [("fail", x) for x in others]
            k, v = outs[I.choose(len(outs))]
            if k == "ok":
                o = order(2)
                self.changed(I, w, exp, args[1], o, True)
                return (1,)
            I.store(args[0], v)
            m["last" + w] = v
            m["attw"] = None
            self.refuse(I)
            return (0,)
        if n == "notify_all":
            m["need_" + w] = None
            return (VOID,)
        if n == "notify_one":
            if m.get("need_" + w):
                self.report("C04", "notify", I, "only one sleeper is notified")
                m["need_" + w] = None
            return (VOID,)
        if n == "wait":
            v = args[0]
            self.slept(I)
            opn = m.get("op")
            self.waits = True
            bl = {"ReadLock": {"r": [e.RL], "w": [e.WC]}, "WriteLock": {"w": [e.WL, e.WC]},
                  "CommitLock": {"r": [x for x in e.reps if x]}}.get(opn, {}).get(w, [])
            if v not in bl:
                self.report("C04", "wait-blocking", I, f"{opn} sleeps on {'readers' if w == 'r' else 'writer'} having the value {v}, which does not prevent it from proceeding")
            elif m.get("last" + w) != v:
                self.report("C04", "wait-blocking", I, f"{opn} sleeps on a value of {'readers' if w == 'r' else 'writer'} it has not just observed")
            else:
                self.report("C04", "wait-blocking", I, None)
            m["lastr"] = m["lastw"] = m["attw"] = None
            return (VOID,)
        if n == "is_lock_free":
            return (1,)
        raise Undecided("atomic::" + n)

    waits = False

    def slept(self, I):
        m = I.mon
        if m.get("try"):
            self.report("C06", "try-never-waits", I, "a non-blocking request waits")
        if m.get("op") == "CommitLock" and self.env.WC is not None and m.get("own_w") != self.env.WC:
            self.report("C05", "commit-announced-first", I, "CommitLock waits before it announced the commit")

    def free(self, I, fn, args, node):
        n = fn["n"]
        if n in ("yield", "sleep_for", "sleep_until"):
            self.slept(I)
            I.mon["lastr"] = I.mon["lastw"] = I.mon["attw"] = None
            return VOID
        if n == "atomic_thread_fence":
            o = ORD.get(args[0], "?")
            if o in STRONG_ACQ:
                I.mon["weak"] = None
            if o in STRONG_REL:
                I.mon["relfence"] = 1
            return VOID
        return super().free(I, fn, args, node)


SCEN = [
    # name, op, try, own_r, own_w, reader held
    ("la_read_block", "ReadLock", 0, None, None, 0),
    ("la_read_default", "ReadLock", 0, None, None, 0),
    ("la_read_try", "ReadLock", 1, None, None, 0),
    ("la_read_unlock", "ReadUnlock", 0, None, None, 1),
    ("la_write_block", "WriteLock", 0, None, None, 0),
    ("la_write_default", "WriteLock", 0, None, None, 0),
    ("la_write_try", "WriteLock", 1, None, None, 0),
    ("la_commit_lock", "CommitLock", 0, None, "WL", 0),
    ("la_commit_unlock", "CommitUnlock", 0, "RL", "WC", 0),
    ("la_write_unlock", "WriteUnlock", 0, None, "WL", 0),
    ("la_write_unlock_commit", "WriteUnlock", 0, "RL", "WC", 0),
]


def analyse(c, config, sink):
    prog = base.export("locks", config)
    env = Env()
    reports = []

    def report(pid, rule, I, what):
        if what is None:
            sink(pid, rule, None, None, None)
        else:
            sink(pid, rule, I, what, [f"configuration {config}"])

    model = LockModels(env, report)

    def trace_hook(fid, fn, this, args, dest):
        if fn["q"] == "Tecs::TraceInfo::Trace" or fn["q"].startswith("Tecs::TraceInfo::Trace"):
            return (VOID,)
        return None

    def go(name, op, tr, own_r, own_w, rd):
        def setup(R):
            R.I.mon.update({"op": op, "try": tr, "own_r": own_r, "own_w": own_w, "reader": rd})

        R = Runner(prog, setup=setup, model=model, call_hook=trace_hook)
        res = R.run(name)
        for f in R.I.fns_seen:
            c.fns.add(prog.fns[f]["q"].split("<")[0] if False else prog.fns[f]["q"])
        if R.I.notes:
            for n in R.I.notes:
                c.undecided("model", name, n)
        c.count("scenarios")
        c.count("abstract paths", len(res))
        return res

    # initial values, then the values that stand for held / commit / locked
    st = [p for p in go("la_new", "ctor", 0, None, None, 0)]
    quiet, model.report = model.report, lambda *a: None
    for p in go("la_write_try", "WriteLock", 1, None, None, 0):
        for t in p.mon.get("tr", ()):
            if t[:2] == ("w", "acq"):
                env.WL = t[3]
    if env.WL is None or env.WL == 0:
        sink("C02", "writer-acquire", "Tecs::ComponentIndex::WriteLock", "WriteLock never moves the writer word away from free", [])
        return
    for p in go("la_commit_lock", "CommitLock", 0, None, env.WL, 0):
        for t in p.mon.get("tr", ()):
            if t[:2] == ("w", "commit"):
                env.WC = t[3]
            if t[:2] == ("r", "lock"):
                env.RL = t[3]
    model.report = quiet
    if env.WC is None:
        sink("C05", "commit-announced-first", "Tecs::ComponentIndex::CommitLock", "CommitLock never announces the commit in the writer word", [])
        sink("C02", "writer-typestate", "Tecs::ComponentIndex::CommitLock", "CommitLock never enters the committing phase", [])
    if env.RL is None or env.RL <= MAX - 1:
        sink("C01", "commit-excludes-readers", "Tecs::ComponentIndex::CommitLock",
             f"CommitLock does not replace a reader count of zero by a value no reader count can reach ({env.RL})", [])
    if env.WC is None or env.RL is None or env.RL <= MAX - 1:
        return
    val = {"WL": env.WL, "WC": env.WC, "RL": env.RL, None: None}
    model.waits = False
    results = []
    for name, op, tr, r, w, rd in SCEN:
        try:
            results.append((name, op, tr, r, go(name, op, tr, val[r], val[w], rd)))
        except Undecided as e:
            c.undecided("engine", f"{name} [{config}]", str(e))
    waits = model.waits
    for name, op, tr, own_r, res in results:
        fn = "Tecs::ComponentIndex::" + op
        if not res:
            sink("C06", "result", fn, f"{op} never returns ({name})", [config])
        for p in res:
            m = p.mon
            trs = m.get("tr", ())
            pl = [f"configuration {config}, scenario {name}, initial readers={'locked' if own_r else 'any'}"] + \
                 [f"{prog.loc(t[4])}: {'readers' if t[0] == 'r' else 'writer'} {t[1]}" for t in trs]

            def S(pid, rule, ok, what):
                sink(pid, rule, None if ok else fn + (f" ({prog.loc(trs[-1][4])})" if trs else ""), None if ok else what, pl)

            obs = [e for e in p.events if e[0] == "observe"]
            ret = None
            if obs:
                ret = obs[-1][2][0][1]
            kinds = [t[:2] for t in trs]
            thrown = isinstance(p.val, Throw)
            if op in ("ReadLock", "WriteLock"):
                want = ("r", "inc") if op == "ReadLock" else ("w", "acq")
                pr, rl = ("C01", "grant-by-one-step") if op == "ReadLock" else ("C02", "writer-acquire")
                if thrown:
                    S("C06", "result", False, f"{op} throws")
                    continue
                if ret not in (0, 1):
                    c.undecided("result", name, f"returns {ret}")
                    continue
                if ret == 1:
                    S(pr, rl, kinds == [want], f"{op} reports success after the steps {kinds} instead of one granting step")
                    S("C06", "result", kinds == [want], f"{op} reports success without having obtained the access")
                    S("C03", "acquire", not m.get("weak"), f"granting step with memory order {m.get('weak') and m['weak'][1]} at {m.get('weak') and prog.loc(m['weak'][0])}")
                    S("C05", "reader-checks-commit", True, "") if op == "ReadLock" else None
                else:
                    S("C06", "result", kinds == [], f"{op} reports failure but changed the lock words: {kinds}")
                    S(pr, rl, kinds == [], f"{op} reports failure but changed the lock words: {kinds}")
                    S("C06", "block-until-granted", tr == 1, f"blocking {op} returns without the access")
                    S("C06", "result", bool(m.get("refused")), f"{op} reports failure although nothing prevented it")
                S("C06", "try-never-waits", True, "")
                S("C06", "block-until-granted", True, "")
            elif thrown:
                pid = {"ReadUnlock": "C01", "CommitLock": "C01"}.get(op, "C02")
                S(pid, {"ReadUnlock": "release-by-one-step", "CommitLock": "commit-excludes-readers"}.get(op, "writer-release"), False,
                  f"{op} throws although it is used correctly")
            elif op == "ReadUnlock":
                S("C01", "release-by-one-step", kinds == [("r", "dec")], f"ReadUnlock performs {kinds} instead of one decrement")
            elif op == "CommitLock":
                S("C01", "commit-excludes-readers", ("r", "lock") in kinds and m.get("own_r") == env.RL and kinds.count(("r", "lock")) == 1,
                  "CommitLock returns without having locked out the readers from a count of zero")
                S("C02", "writer-typestate", m.get("own_w") == env.WC, "CommitLock returns without being in the committing phase")
                S("C05", "commit-announced-first", kinds[:1] == [("w", "commit")], f"steps of CommitLock: {kinds}")
                S("C03", "acquire", not m.get("weak"), f"granting step with memory order {m.get('weak') and m['weak'][1]}")
            elif op == "CommitUnlock":
                S("C01", "reader-word-typestate", kinds.count(("r", "unlock")) == 1, f"CommitUnlock does not reopen the data for readers exactly once: {kinds}")
                S("C02", "writer-release", m.get("own_w") == env.WL, "CommitUnlock does not return to plain write access")
                S("C05", "priority-kept", ("r", "unlock") in kinds, "the committing phase is left without giving back the commit lock")
            elif op == "WriteUnlock":
                S("C02", "writer-release", kinds.count(("w", "rel")) == 1 and m.get("own_w") is None, f"WriteUnlock performs {kinds}")
                if own_r:
                    S("C01", "reader-word-typestate", kinds.count(("r", "unlock")) == 1 and m.get("own_r") is None, "WriteUnlock after a commit leaves readers locked out")
                else:
                    S("C01", "reader-word-typestate", not [k for k in kinds if k[0] == "r"], f"WriteUnlock changes the readers: {kinds}")
            if op in ("ReadLock", "ReadUnlock"):
                S("C02", "writer-typestate", not [k for k in kinds if k[0] == "w"], f"{op} changes the writer word")
            if op == "WriteLock":
                S("C01", "reader-word-typestate", not [k for k in kinds if k[0] == "r"], f"{op} changes the reader word")
            if waits:
                for w, nm in (("r", "readers"), ("w", "writer")):
                    if any(t[0] == w and t[1] in ("dec", "unlock", "decommit", "rel") for t in trs):
                        S("C04", "notify", not m.get("need_" + w),
                          f"{op} changes {nm} at {m.get('need_' + w) and prog.loc(m['need_' + w])} without notifying the sleepers afterwards")
    # who may write
    anchors = set()
    for i, f in enumerate(prog.fns):
        if not f or f["sys"] or not f.get("hasbody"):
            continue
        writes = set()
        scan(prog, f.get("body"), writes)
        for init in f.get("inits", []):
            scan(prog, init.get("i"), writes)
        if writes:
            anchors.add(i)
    callers = {}
    for i, f in enumerate(prog.fns):
        if f and not f["sys"] and f.get("hasbody"):
            for g in callees(f):
                callers.setdefault(g, set()).add(i)
    lam = {}
    ok = {i for i in anchors if prog.fns[i]["n"] in PRIMS and prog.fns[i]["q"].startswith("Tecs::ComponentIndex")}
    for i in anchors - ok:
        todo, seen, bad = [i], {i}, None
        while todo:
            x = todo.pop()
            f = prog.fns[x]
            if f["n"] in PRIMS and f["q"].startswith("Tecs::ComponentIndex"):
                continue
            cs = callers.get(x, set())
            if not cs or x == i and f.get("kind") == "dtor":
                bad = x
                break
            for y in cs - seen:
                seen.add(y)
                todo.append(y)
        f = prog.fns[i]
        for pid in ("C01", "C02"):
            sink(pid, "who-may-write", None if bad is None else f"{f['q']} ({prog.loc(f['l'])})",
                 None if bad is None else "modifies the lock words outside the lock primitives", [])
    for pid in ("C01", "C02"):
        for _ in ok:
            sink(pid, "who-may-write", None, None, None)
    if not ok:
        raise base.Broken("no function modifies the lock words: anchors vanished")


MODS = ("store", "exchange", "fetch_add", "fetch_sub", "compare_exchange_strong", "compare_exchange_weak", "fetch_or", "fetch_and", "fetch_xor")


def walk(n):
    if isinstance(n, list):
        yield n
        for x in n:
            if isinstance(x, (list, dict)):
                yield from walk(x)
    elif isinstance(n, dict):
        for x in n.values():
            if isinstance(x, (list, dict)):
                yield from walk(x)


def scan(prog, body, out):
    for n in walk(body):
        if n and n[0] == "mcall" and len(n) > 6:
            fn = prog.fns[n[4]]
            if fn and (fn["n"] in MODS or fn.get("op") in ("=", "++", "--", "+=", "-=", "|=", "&=")):
                for m in walk(n[5]):
                    if m and m[0] == "mem" and m[5] in ("readers", "writer"):
                        if isinstance(n[5], list):
                            out.add(m[5])


def callees(f):
    s = set()
    for n in list(walk(f.get("body"))) + [x for i in f.get("inits", []) for x in walk(i.get("i"))]:
        if n and n[0] in ("call", "mcall", "ctor") and len(n) > 4 and isinstance(n[4], int):
            s.add(n[4])
        if n and n[0] == "lambda" and len(n) > 6:
            s.update(n[6])
    return s


class Sink:
    """obligations of the six lock properties of one configuration"""

    def __init__(self):
        self.rec = base.Rec()
        self.fns, self.count = self.rec.fns, self.rec.count

    def undecided(self, rule, where, what=""):
        for pid in RULES:
            if pid in IDS:
                self.rec.undecided(pid, rule, where, what)

    def __call__(self, pid, rule, where, what, path):
        if what is None:
            self.rec.ok(pid, rule)
        else:
            self.rec.violation(pid, rule, where.where() if isinstance(where, Interp) else where, what, path)


IDS = ("C01", "C02", "C03", "C04", "C05", "C06")
ASSUME = ["fewer than 2^32-2 simultaneous readers", "the other threads change the lock words only through the same primitives (checked by who-may-write)"]
EXPLAIN = {p: "All paths of the lock primitives, interpreted from the instantiated source with the two lock words as typestates owned by the calling thread "
              "or changed arbitrarily by others; loops solved as fixpoints over abstract states." for p in IDS}


def collect(thorough=False, note=None):
    cfgs = ["checked", "cxx17"] + (["unchecked", "tracing", "tracing17", "header", "header17"] if thorough else ["tracing", "header"])
    for cf in cfgs:
        try:
            base.export("locks", cf)
        except base.Broken:
            pass
    return base.pmap(one, cfgs)


def one(cf):
    s = Sink()
    try:
        analyse(s, cf, s)
        s.count("configurations")
    except base.Broken as e:
        s.undecided("configuration", cf, str(e)[:300])
    s.rec.samples.append("initial words: readers/writer = any reachable value; every load returns any value another thread could have stored")
    return s.rec
