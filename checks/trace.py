"""C29: performance traces. Lock primitives and transactions with the calls of the recorder as events; the recorder, its start and stop,
the names of the events and the table on their own."""
from .world import *
from . import locks

NC = 3

KINDS = ("TransactionStart TransactionEnd ReadLockWait ReadLock ReadUnlock WriteLockWait WriteLock CommitLockWait CommitLock CommitUnlock "
         "WriteUnlock").split()
P = "C29"


def istrace(fn, n):
    return fn["n"] == n and fn["q"].startswith("Tecs::TraceInfo::")


def kinds(prog):
    """value of each enumerator, as the compiler sees it"""
    rec = base.Rec()
    W = World(prog, rec, "kinds", rules=False)
    for p in W.R.run("tr_kinds"):
        for e in p.events:
            if e[0] == "observe" and e[1] == "kinds":
                return {v[1]: k for v, k in zip(e[2], KINDS)}
    raise Undecided("kinds of events")


# ---------------------------------------------------------------- lock primitives
class LockTrace(locks.LockModels):
    """the lock words behave as in C01-C06; additionally it is recorded whether the request ever slept"""

    def slept(self, I):
        if not I.mon.get("waited"):
            I.mon["silent"] = 1
        super().slept(I)


WANT = {"ReadLock": ["ReadLock"], "WriteLock": ["WriteLock"], "CommitLock": ["CommitLock"], "ReadUnlock": ["ReadUnlock"],
        "CommitUnlock": ["CommitUnlock"], "WriteUnlock": ["WriteUnlock"]}


def primitives(cfg, names):
    rec = base.Rec()
    prog = base.export("locks", cfg)
    env = locks.Env()
    model = LockTrace(env, lambda *a: None)

    def go(name, op, tr, own_r, own_w, rd):
        def setup(R):
            R.I.mon.update({"op": op, "try": tr, "own_r": own_r, "own_w": own_w, "reader": rd})

        def hook(fid, fn, this, args, dest):
            if istrace(fn, "Trace"):
                m = R.I.mon
                k = names.get(args[0], args[0])
                if not (isT(this, "ref") and this.a[0] == ("in", "c")):
                    m["foreign"] = 1
                t = m.get("rec", ())
                if len(t) < 6:
                    m["rec"] = t + (k,)
                if isinstance(k, str) and k.endswith("Wait"):
                    m["waited"] = 1
                return (VOID,)

        R = Runner(prog, setup=setup, model=model, call_hook=hook)
        res = R.run(name)
        rec.fns |= {prog.fns[f]["q"] for f in R.I.fns_seen}
        for n in R.I.notes:
            rec.undecided(P, "lock-events", name, n)
        rec.count("paths of lock primitives", len(res))
        return res

    for p in go("la_write_try", "WriteLock", 1, None, None, 0):
        for t in p.mon.get("tr", ()):
            if t[:2] == ("w", "acq"):
                env.WL = t[3]
    if env.WL is not None:
        for p in go("la_commit_lock", "CommitLock", 0, None, env.WL, 0):
            for t in p.mon.get("tr", ()):
                if t[:2] == ("w", "commit"):
                    env.WC = t[3]
                if t[:2] == ("r", "lock"):
                    env.RL = t[3]
    if None in (env.WL, env.WC, env.RL) or env.RL <= locks.MAX - 1:
        rec.undecided(P, "lock-events", cfg, "the lock words are not understood (see C01, C02)")
        return rec
    val = {"WL": env.WL, "WC": env.WC, "RL": env.RL, None: None}
    for name, op, tr, r, w, rd in locks.SCEN:
        where = f"Tecs::ComponentIndex::{op} [{name}, {cfg}]"
        try:
            res = go(name, op, tr, val[r], val[w], rd)
        except Undecided as e:
            rec.undecided(P, "lock-events", where, str(e))
            continue
        for p in res:
            if isinstance(p.val, Throw) or p.kind == "raise":
                continue  # misuse; the rest of the library never gets there (C01, C02, C08)
            m = p.mon
            got = m.get("rec", ())
            obs = [e for e in p.events if e[0] == "observe"]
            ret = obs[-1][2][0][1] if obs else 1
            path = lambda: [f"{prog.loc(t[4])}: {'readers' if t[0] == 'r' else 'writer'} {t[1]}" for t in m.get("tr", ())] + [f"records {got}, returns {ret}"]
            if any(not isinstance(k, str) for k in got) or ret not in (0, 1):
                rec.undecided(P, "lock-events", where, f"records {got}, returns {ret}")
                continue
            plain = [k for k in got if not k.endswith("Wait")]
            waits = [k for k in got if k.endswith("Wait")]
            rec.require(P, plain == (WANT[op] if ret else []), "lock-events", where,
                        f"records {plain or 'nothing'} for {'a granted request or a release' if ret else 'a refused request'}", path)
            rec.require(P, not m.get("foreign"), "lock-events", where, "records into another object's trace", path)
            ok = waits in ([], [op + "Wait"]) and not (tr and waits) and (not waits or got[0] == waits[0])
            rec.require(P, ok, "wait-events", where, f"records {waits} {'for a request that never waits' if tr else ''}", path)
            rec.require(P, not m.get("silent"), "wait-events", where, "sleeps without having recorded that it waits", path)
    return rec


# ---------------------------------------------------------------- transactions
class TxTrace(World):
    def call(self, fid, fn, this, args, dest):
        if istrace(fn, "Trace"):
            self.I.event("trace", args[0], this)
            return (VOID,)
        return super().call(fid, fn, this, args, dest)


def transactions(cfg, name, names):
    rec = base.Rec()
    prog = base.export("tx", cfg)

    def mark(W, n):
        if n == "havoc":
            W.I.mem.pop(("flags",), None)

    W = TxTrace(prog, rec, name, on_mark=mark, rules=False)
    W.try_lock = False
    where = f"Tecs::Transaction [{name}, {cfg}]"
    try:
        paths = W.R.run(name)
    except (Undecided, LookupError) as e:
        rec.undecided(P, "transaction-events", where, str(e))
        return rec
    for p in paths:
        ev = p.events
        marks = [e[1] for e in ev if e[0] == "mark"]
        got = [(names.get(e[1], e[1]), e[2]) for e in ev if e[0] == "trace"]
        if any(e[0] == "loop" and any(x[0] == "trace" for b in e[1].paths for x in b["ev"]) for e in ev):
            rec.violation(P, "transaction-events", where, "an event is recorded in a loop", [])
            continue
        want = ["TransactionStart", "TransactionEnd"] if "ended" in marks else ["TransactionStart"] if "started" in marks else []
        if p.kind == "raise" and "started" in marks:
            continue
        rec.require(P, [k for k, _ in got] == want, "transaction-events", where, f"records {[k for k, _ in got] or 'nothing'} instead of {want or 'nothing'}",
                    lambda: [f"marks {marks}"])
        rec.require(P, all(isT(t, "ref") and t.a[0] == ECS and len(t.a[1]) == 1 for _, t in got), "transaction-events", where,
                    "the event goes to another trace than the instance's own", lambda: [show(t) for _, t in got])
        rec.count("paths of transactions")
    rec.fns |= {prog.fns[f]["q"] for f in W.I.fns_seen}
    return rec


# ---------------------------------------------------------------- the recorder
T = ("in", "t")


class Fields:
    """which member of the recorder is which, by type"""

    def __init__(self, prog):
        r = next(r for r in prog.records if r and r["q"] == "Tecs::TraceInfo")
        self.enabled = self.next = self.events = None
        for f in r["fields"]:
            o = prog.rec(f["t"])
            q = o["q"] if o else ""
            if q in ("std::atomic", "std::__atomic_base", "std::atomic_bool") or q.startswith("std::atomic"):
                s = prog.types[prog.strip(f["t"])]["s"]
                if "bool" in s:
                    self.enabled = f["n"]
                else:
                    self.next = f["n"]
            elif q == "std::vector":
                self.events = f["n"]
        if None in (self.enabled, self.next, self.events):
            raise Undecided("members of TraceInfo")
        self.e = mk("init", T)


class Recorder:
    def __init__(self, prog, cfg, names):
        self.prog, self.cfg, self.names = prog, cfg, names
        self.rec = base.Rec()
        self.F = Fields(prog)

    def run(self, fn):
        self.fn = fn
        self.where = f"Tecs::TraceInfo [{fn}, {self.cfg}]"
        W = self.W = World(self.prog, self.rec, fn, rules=False)
        self.I = W.I
        W.call = lambda *a: None
        W.I.call_hook = None
        n = [0]

        # other threads record and take slots at any time
        def atom(I, f, this, args):
            if not (isT(this, "ref") and this.a[0] == T and this.a[1] == (self.F.next,)):
                return None
            nm, op = f["n"], f.get("op")
            rt = f["ret"]
            if nm == "load" or f["kind"] == "conv":
                c = I.mon["ld"] = I.mon.get("ld", 0) + 1
                v = I.scalar(mk("init", ("next", "load", c)), rt)
                I.event("next", "load", v)
                return (v,)
            if nm in ("fetch_add",) or op == "++" or op == "+=":
                d = args[0] if nm == "fetch_add" or op == "+=" else 1
                c = I.mon["rm"] = I.mon.get("rm", 0) + 1
                v = mk("init", ("next", "rmw", c))
                ATOMB[v] = (0, 2**32 - 2)
                I.event("next", "take", v, d)
                post = nm == "fetch_add" or (op == "++" and len(f["params"]) == 1)
                return (v if post else lin_add(v, d),)
            if nm == "store" or op == "=":
                I.event("next", "store", args[0])
                return (args[0] if op == "=" else VOID,)
            return None

        W.R.m.atomic_hook = atom
        try:
            out = W.R.run(fn)
        except (Undecided, LookupError) as e:
            self.rec.undecided(P, "recorder", self.where, str(e))
            return []
        self.rec.count("paths of the recorder", len(out))
        self.rec.fns |= {self.prog.fns[f]["q"] for f in W.I.fns_seen}
        return out

    def req(self, c, rule, what):
        self.rec.require(P, c, rule, self.where, what, lambda: ["outcome " + self.p.kind] + [str([show(x) if isT(x) else x for x in e])[:160] for e in self.p.events[:12]])

    def begin(self, p):
        self.p = p
        self.I.restore(p.snap)
        return [e[1] for e in p.events if e[0] == "atomic" and False]

    def was(self):
        """was the trace running when the operation looked?"""
        v = mk("sel", self.F.e, self.F.enabled)
        return self.I.decide(v)

    def record(self):
        size = mk("size", mk("sel", self.F.e, self.F.events))
        for p in self.run("tr_record"):
            self.begin(p)
            wr = [e for e in p.events if e[0] == "wr" and e[1] == T and e[2] and e[2][0] == self.F.events]
            other = [e for e in p.events if e[0] == "wr" and e[1] == T and e[2] and e[2][0] not in (self.F.events, self.F.next)]
            take = [e for e in p.events if e[0] == "next" and e[1] == "take"]
            if p.kind != "stop":
                self.req(False, "records-event", "recording an event throws")
                continue
            on = self.was()
            self.req(not other, "records-event", "recording changes the state of the trace")
            if on is None:
                self.req(None if self.odd() else False, "records-event", "an event is written whether or not a trace is running")
                continue
            if not on:
                self.req(not wr, "records-event", "an event is written although no trace is running")
                continue
            if len(take) != 1 or take[0][3] != 1:
                self.req(False, "own-slot", f"a slot is taken by {len(take)} atomic increments; each event must take exactly one")
                continue
            slot = take[0][2]
            room = self.I.decide(tlt(slot, size))
            if not wr:
                self.req(True if room is False else None if room is None and self.odd() else False, "records-event", "an event that fits the buffer is not recorded")
                continue
            idx = {e[2][1] if len(e[2]) > 1 else None for e in wr}
            if len(idx) != 1 or not (isinstance(next(iter(idx)), tuple)):
                self.req(None if None in idx else False, "own-slot", f"one event is written to {len(idx)} places")
                continue
            i = next(iter(idx))[1]
            same = self.I.facts.decide_eq0(lin_add(i, slot, -1)) if linear(i) else None
            self.req(True if same else False if same is False or isinstance(i, int) or self.known(i) else None, "own-slot",
                     f"the event is written to slot {show(i)}, not to the slot {show(slot)} it took")
            if same:
                self.req(True if room else False, "in-bounds", "an event is written outside of the buffer")
            v = self.I.select(self.I.select(p.mem.get(T), self.F.events), ("i", i))
            fields = self.fields()
            done = {e[2][2] for e in wr if len(e[2]) > 2} | (set(fields) if any(len(e[2]) == 2 for e in wr) else set())
            for f, t in fields.items():
                self.req(f in done, "records-event", f"{f} of the event is not recorded")
                if t == "enum":
                    got = self.I.select(v, f)
                    want = mk("init", ("in", "e"))
                    self.req(True if got is want else None if isT(got) and got.op not in ("init",) else False, "records-event",
                             f"the kind recorded is {show(got)}, not the one passed")

    def fields(self):
        r = next(r for r in self.prog.records if r and r["q"] == "Tecs::TraceEvent")
        return {f["n"]: self.prog.types[self.prog.strip(f["t"])]["k"] if self.prog.types[self.prog.strip(f["t"])]["k"] == "rec" else "enum" for f in r["fields"]}

    def known(self, i):
        return all(a.op in ("init", "size") for a in atoms_of(i))

    def odd(self):
        return any(t.op not in ("eq", "le0", "not", "init", "sel") for t in self.I.facts.atoms)

    def state(self, p):
        en = self.I.select(p.mem.get(T), self.F.enabled) if p.mem.get(T) is not None else mk("sel", self.F.e, self.F.enabled)
        return en

    def moved(self, p, wr, running):
        """did a refused operation change anything?"""
        en = self.state(p)
        same = en == running or running == 0 and en is ZERO or self.I.decide(en) is bool(running)
        return any(e[2] != (self.F.enabled,) for e in wr) or not same

    def start(self):
        for p in self.run("tr_start"):
            self.begin(p)
            on = self.was()
            wr = [e for e in p.events if e[0] == "wr" and e[1] == T]
            st = [i for i, e in enumerate(p.events) if e[0] == "next" and e[1] == "store"]
            if on is None:
                self.req(None if self.odd() else False, "start-stop", "starting does not depend on whether a trace is running")
            elif on:
                self.req(p.kind == "raise" and not self.moved(p, wr, 1) and not st, "start-stop", "starting a trace while one is running does not throw, or changes it")
            else:
                self.req(p.kind == "stop", "start-stop", "starting a trace throws although none is running")
                if p.kind != "stop":
                    continue
                en = [i for i, e in enumerate(p.events) if e[0] == "wr" and e[1] == T and e[2] == (self.F.enabled,)]
                self.req(self.state(p) == 1, "start-stop", f"after the start the trace is {show(self.state(p))}, not running")
                last = p.events[st[-1]][2] if st else None
                self.req(last == 0, "start-stop", f"a new trace starts at {show(last) if last is not None else 'an old'} position instead of 0")
                if st and en:
                    self.req(st[-1] < en[0], "start-stop", "recording is switched on before the position is reset")

    def stop(self):
        size = mk("size", mk("sel", self.F.e, self.F.events))
        for p in self.run("tr_stop"):
            self.begin(p)
            on = self.was()
            wr = [e for e in p.events if e[0] == "wr" and e[1] == T]
            if on is None:
                self.req(None if self.odd() else False, "start-stop", "stopping does not depend on whether a trace is running")
                continue
            if not on:
                self.req(p.kind == "raise" and not self.moved(p, wr, 0), "start-stop", "stopping without a trace does not throw, or changes something")
                continue
            self.req(p.kind == "stop", "start-stop", "stopping a running trace throws")
            if p.kind != "stop":
                continue
            self.req(self.state(p) in (0, ZERO), "start-stop", "after the stop the trace is still running")
            v = next(e[2][0][1] for e in p.events if e[0] == "observe")
            if not isT(v, "span"):
                self.req(None, "stop-range", f"returns {show(v)}")
                continue
            b, o, n = v.a
            self.req(isT(b, "ref") and b.a == (T, (self.F.events,)) and o == 0, "stop-range", f"the range returned starts at {show(b)}+{show(o)}")
            loads = [e[2] for e in p.events if e[0] == "next" and e[1] == "load"]
            f = self.I.facts
            if not linear(n) or not loads:
                self.req(None if loads or not linear(n) else False, "stop-range", f"{show(n)} events are returned, whatever was recorded")
                continue
            inb = self.I.decide(tle(n, size))
            self.req(True if inb else False if self.known(n) else None, "stop-range", f"{show(n)} events are returned, possibly more than the buffer holds")
            le = [self.I.decide(tle(n, l)) for l in loads]
            self.req(True if any(le) else False if self.known(n) else None, "stop-range", f"{show(n)} events are returned, possibly more than were recorded")
            full = [f.decide_eq0(lin_add(n, x, -1)) for x in [size] + loads]
            self.req(True if any(full) else None if not self.known(n) else False, "stop-range", f"{show(n)} events are returned although more were recorded and kept")

    def ecs(self):
        """every trace of the instance is started and stopped, and each table column gets its own"""
        prog = self.prog
        want = [("transactionTrace",)]
        for fn, meth in (("tr_ecs_start", "StartTrace"), ("tr_ecs_stop", "StopTrace")):
            self.fn, self.where = fn, f"Tecs::ECS::{meth} [{self.cfg}]"
            W = World(prog, self.rec, fn, rules=False)
            self.W, self.I = W, W.I

            def call(fid, f, this, args, dest, meth=meth, W=W):
                if istrace(f, meth):
                    W.I.event("tr", this)
                    if meth == "StopTrace":
                        v = mk("span", this, 0, mk("init", ("n", this)))
                        if dest is not None:
                            W.I.store(dest, v)
                            return (VOID,)
                        return (v,)
                    return (VOID,)
                if f["n"] == "GetComponentName" and f.get("ret") is not None and False:
                    return None
                return None

            W.I.call_hook = call
            try:
                paths = W.R.run(fn)
            except (Undecided, LookupError) as e:
                self.rec.undecided(P, "instance-trace", self.where, str(e))
                continue
            for p in paths:
                self.p = p
                self.I.restore(p.snap)
                got = [e[1].a[1] for e in p.events if e[0] == "tr" and isT(e[1], "ref") and e[1].a[0] == ECS]
                comp = [g[1] for g in got if len(g) == 3 and g[0] == "indexes"]
                meta = [g for g in got if g[0] == "metadata"]
                own = [g for g in got if len(g) == 1]
                self.req(sorted(comp) == list(range(NC)) and len(meta) == 1 and len(own) == 1 and len(got) == NC + 2, "instance-trace",
                         f"{meth} of the instance reaches {got}, not each of its traces once")
                if meth != "StopTrace":
                    continue
                v = next(e[2][0][1] for e in p.events if e[0] == "observe")

                def of(t):
                    return t.a[0].a[1] if isT(t, "span") and isT(t.a[0], "ref") and t.a[0].a[0] == ECS else None

                te, me = of(self.I.select(v, "transactionEvents")), of(self.I.select(v, "metadataEvents"))
                self.req(te is not None and len(te) == 1, "instance-trace", f"the transaction events are those of {te}")
                self.req(me is not None and me[0] == "metadata", "instance-trace", f"the metadata events are those of {me}")
                ce, cn = self.I.as_seq(self.I.select(v, "componentEvents")), self.I.as_seq(self.I.select(v, "componentNames"))
                self.req(ce.a[1:3] == (0, NC) and cn.a[1:3] == (0, NC), "instance-trace", "not one list of events and one name per component")
                if ce.a[1:3] == (0, NC):
                    for k in range(NC):
                        g = of(self.I.sel_seq(ce, k))
                        self.req(g is not None and g[:2] == ("indexes", k), "instance-trace", f"the events of component {k} are those of {g}")
                if cn.a[1:3] == (0, NC):
                    ns = [show(self.I.sel_seq(cn, k)) for k in range(NC)]
                    self.req(len(set(ns)) == len(ns), "instance-trace", f"names of components: {ns}")

    def eventname(self, kind):
        for p in self.run("tr_name_" + kind):
            self.p = p
            self.I.restore(p.snap)
            out = [e for e in p.events if e[0] == "out"]
            txt = "".join(text(e[2]) if text(e[2]) is not None else "?" for e in out)
            self.where = f"Tecs::operator<<(TraceEvent::Type) [{self.cfg}]"
            self.req(p.kind == "stop", "event-names", f"printing {kind} throws")
            self.req(True if txt == kind else None if "?" in txt else False, "event-names", f"{kind} prints as {txt!r}")

    # -- the table
    def csv(self, ncomp):
        fn = "tr_csv"
        self.fn, self.where = fn, f"Tecs::PerformanceTrace::SaveToCSV [{ncomp} components, {self.cfg}]"

        def setup(W):
            I = W.I
            r = ref(("in", "p"))
            I.mem[("in", "p")] = mk("init", ("in", "p"))
            # every list of events has a length of its own
            for f in ("transactionEvents", "metadataEvents"):
                n = mk("size", mk("init", ("ev", f)))
                ATOMB[n] = (0, 2**32)
                I.poke(ref(("in", "p"), (f,)), mk("span", ref(("ev", f)), 0, n))
            ev, nm = [], []
            for k in range(ncomp):
                n = mk("size", mk("init", ("ev", k)))
                ATOMB[n] = (0, 2**32)
                ev.append(("st", k, mk("span", ref(("ev", k)), 0, n)))
                nm.append(("st", k, mk("str", "name")))
            I.poke(ref(("in", "p"), ("componentEvents",)), seq(UNINIT, 0, ncomp, tuple(ev)))
            I.poke(ref(("in", "p"), ("componentNames",)), seq(UNINIT, 0, ncomp, tuple(nm)))

        W = World(self.prog, self.rec, fn, rules=False, setup=setup)
        self.W, self.I = W, W.I

        def call(fid, f, this, args, dest):
            if f["n"] == "GetThreadName":
                v = mk("str", "thread")
                if dest is not None:
                    W.I.store(dest, v)
                    return (VOID,)
                return (v,)
            if f.get("op") == "<<" and not f["sys"] and len(f["params"]) == 2:
                W.I.event("out", args[0], mk("str", "kind"), "")
                return (args[0],)

        W.I.call_hook = call
        try:
            paths = W.R.run(fn)
        except (Undecided, LookupError) as e:
            self.rec.undecided(P, "table-columns", self.where, str(e))
            return
        self.rec.fns |= {self.prog.fns[f]["q"] for f in W.I.fns_seen}
        for p in paths:
            self.p = p
            self.I.restore(p.snap)
            self.rec.count("paths of the table")
            if p.kind != "stop":
                self.req(False, "table-columns", "saving a trace throws")
                continue
            self.table(p)

    def table(self, p):
        segs = self.segments(p.events)
        if segs is None:
            self.req(None, "table-columns", "text of unknown content is printed")
            return
        head, rows, tail = segs
        if not head:
            self.req(None, "table-columns", "no complete header before the rows")
            return
        cols = head[0]
        for r in head[1:] + rows:
            self.req(r == cols, "table-columns", f"a row has {r + 1} columns, the header {cols + 1}")
        self.req(tail == 0, "table-columns", "the last row is not ended")

    def segments(self, evs):
        """numbers of separators of each finished line outside of loops, inside generic iterations, and whether text is left over"""
        lines, inner, cur, dirty = [], [], 0, 0

        def feed(es, acc):
            nonlocal inner
            cur, dirty = 0, 0
            for e in es:
                if e[0] == "out":
                    t = text(e[2])
                    if isT(e[2], "fnref"):
                        t = "\n" if self.prog.fns[e[2].a[0]]["n"] == "endl" else ""
                    if t is None:
                        return None
                    parts = t.split("\n")
                    for i, x in enumerate(parts):
                        if i:
                            acc.append(cur)
                            cur, dirty = 0, 0
                        cur += x.count(",")
                        dirty += len(x) > 0
                elif e[0] == "loop":
                    if dirty and any(x[0] == "out" for b in e[1].paths for x in b["ev"]):
                        return None  # a line built by a loop of unknown length
                    for b in e[1].paths:
                        if not any(x[0] in ("out", "loop") for x in b["ev"]):
                            continue
                        sub = []
                        r = feed(b["ev"], sub)
                        if r is None or r[1] and not r[0]:
                            return None
                        inner += sub
                        if r[1]:
                            self.req(False, "table-columns", "a loop of unknown length adds columns to a line without ending it")
            return cur, dirty

        r = feed(evs, lines)
        if r is None:
            return None
        return lines, inner, r[1]


def text(v):
    """text printed for a value: constant text, or something without separators"""
    if isinstance(v, str):
        return v
    if isinstance(v, int):
        return str(v)
    if isT(v, "c"):
        return text(v.a[0])
    if isT(v, "str"):
        if len(v.a) == 1 and isinstance(v.a[0], str):
            return v.a[0]
        if v.a[0] == "cat":
            xs = [text(x) for x in v.a[1:]]
            return None if None in xs else "".join(xs)
        if v.a[0] in ("num",):
            return "0"
        if v.a[0] == "ss":
            return "s"
        return None
    if isT(v, "ref") and v.a[0][0] == "S":
        return v.a[0][1]
    if isT(v, "opaque") or linear(v):
        return "v"
    return None


RULES = {P: {
    "lock-events": "Every granted lock and every release records exactly one event of its own kind in the trace of its own table; a refused request records none.",
    "wait-events": "A blocking request records at most one wait event of its own kind, before it sleeps; a non-blocking one records none.",
    "transaction-events": "Every transaction records one start and one end in the instance's trace, a refused one none.",
    "records-event": "While a trace runs, an event that fits is recorded with kind, thread and time; otherwise nothing is written.",
    "own-slot": "Each event takes a slot by one atomic increment and writes only that slot.",
    "in-bounds": "Only slots inside the buffer are written.",
    "start-stop": "Starting throws exactly if a trace is running and resets the position before recording begins; stopping throws exactly if none is running.",
    "stop-range": "Stopping returns the first min(buffer size, number recorded) events.",
    "instance-trace": "Starting and stopping reach every trace of the instance once, and the result has each in its own place.",
    "event-names": "Each kind of event prints as its own name.",
    "table-columns": "Every line of the table has as many separators as the header, for every combination of lists that have ended.",
    "recorder": "The operations of the recorder complete.",
}}
EXPLAIN = {P: "Every path of the lock primitives and of transactions in a build with tracing, with each call of the recorder as an event; the recorder itself for an "
           "arbitrary buffer size and any interleaving of other recorders; the table printer for 0 to 3 components and a generic row."}
ASSUME = ["Fewer than 2^32 - 1 events between a start and a stop.", "Names of components and threads contain no comma or line break.",
          "A trace is started and stopped by one thread at a time."]

TXS = "none rA rAB rG rall wA wB_rA wA_rBG wAB wG wAG wall ar ar_wall nested throw_wA_rB".split()


def collect(thorough=False, note=None):
    items = []
    for cfg in ["tracing", "tracing17"] + (["unchecked-tracing"] if thorough else []):
        prog = base.export("trace", cfg)
        base.export("locks", cfg)
        base.export("tx", cfg)
        items.append((cfg, "locks", None))
        items += [(cfg, "tx", "tx_" + n) for n in TXS]
        items += [(cfg, n, None) for n in ("record", "start", "stop", "ecs")]
        items += [(cfg, "name", k) for k in KINDS + ["Invalid"]]
        items += [(cfg, "csv", n) for n in ((0, 1, 2, 3) if thorough else (0, 1, 2))]
    return base.pmap(one, items)


def one(it):
    cfg, what, arg = it
    prog = base.export("trace", cfg)
    names = kinds(prog)
    if what == "locks":
        return primitives(cfg, names)
    if what == "tx":
        return transactions(cfg, arg, names)
    r = Recorder(prog, cfg, names)
    if what == "name":
        r.eventname(arg)
    elif what == "csv":
        r.csv(arg)
    else:
        getattr(r, what)()
    return r.rec
