"""C07-C14, C22-C24: starting, committing and ending transactions, for every kind of permission set and any set of changes."""
from .world import *

RULES = {
    "C39": {"no-hidden-state": "whatever starting or ending a transaction writes is local, thread-local, atomic, the transaction's own or protected by access held"},
    "C32": {"transactions-alike": "starting and ending transactions keeps every obligation that it keeps with run-time checks"},
    "C07": {"block-only-empty-handed": "a lock request that may wait is made only while the starting transaction holds no access at all"},
    "C08": {
        "one-mode-each": "no access is requested that is already held",
        "granted-set": "when the transaction has started it holds exactly the access its permissions name, in the right mode",
        "release-matches": "every release and commit operation is applied to access held in the matching mode",
        "all-released": "when the transaction has ended (normally, by exception, or because starting failed) nothing is held any more",
    },
    "C09": {"no-read-access-while-waiting": "no read access to a component type is held when a commit lock is requested"},
    "C10": {"access-held": "every read or write of shared state happens while holding the access that protects it"},
    "C11": {
        "lock-all-then-publish": "all commit locks are taken before the first published change and before the first commit lock is released",
        "published-under-commit-lock": "every published location changes only under its commit lock (lists of entities with a component also under the entity set's)",
        "published-part": "when the transaction ends every part of the change has been published",
    },
    "C12": {"working-equals-committed": "when write access is given back the working copy equals the committed copy"},
    "C13": {"flagged-is-published": "what was flagged as changed is the committed state when the transaction has ended"},
    "C14": {
        "unflagged-not-locked": "no commit lock is requested for data not flagged as changed",
        "unflagged-not-published": "committed data not flagged as changed is the same when the transaction has ended",
    },
    "C22": {
        "list-covers-table": "the loop that rebuilds a list of entities covers the whole entity table, starting with an empty list",
        "listed-iff-exists": "an entity is appended exactly if it exists (and has the component), once, with its current id",
        "index-points-to-entry": "the recorded list position is the position of the entry appended",
        "free-list": "the free list receives exactly the entities that do not exist, with a higher generation",
    },
    "C18": {
        "free-list": "a slot is put on the free list only if no entity exists in it, each slot at most once",
        "next-generation": "a slot put on the free list gets a higher generation, with the identifier of the instance",
    },
    "C23": {
        "event-table": "for each entity, the events queued are exactly those implied by its state before and after, removed before added",
        "event-content": "events carry the id and value of the state they report",
        "global-events": "for global components, one event exactly if it was added or removed",
        "events-cover-table": "events are generated for every entity of the table",
    },
    "C24": {
        "delivered-to-all": "at commit every observer's queue receives the whole queue of events at its end, once",
        "queue-emptied": "the queue of events is empty after the commit and unchanged if nothing structural changed",
        "queue-exists": "a transaction with add/remove permission has an event queue for every kind of event",
    },
}

CASES = {  # name -> held when started
    "none": {"m": "R"}, "rA": {"m": "R", 0: "R"}, "rAB": {"m": "R", 0: "R", 1: "R"}, "rG": {"m": "R", 2: "R"},
    "rall": {"m": "R", 0: "R", 1: "R", 2: "R"}, "wA": {"m": "R", 0: "W"}, "wB_rA": {"m": "R", 0: "R", 1: "W"},
    "wA_rBG": {"m": "R", 0: "W", 1: "R", 2: "R"}, "wAB": {"m": "R", 0: "W", 1: "W"}, "wG": {"m": "R", 2: "W"},
    "wAG": {"m": "R", 0: "W", 2: "W"}, "wall": {"m": "R", 0: "W", 1: "W", 2: "W"},
    "ar": {"m": "W", 0: "W", 1: "W", 2: "W"}, "ar_wall": {"m": "W", 0: "W", 1: "W", 2: "W"}, "nested": {"m": "R", 0: "R", 1: "W"},
    "throw_wA_rB": {"m": "R", 0: "W", 1: "R"},
    "wC_rBG": {"m": "R", 1: "R", 2: "R", 3: "W"}, "wBCG": {"m": "R", 1: "W", 2: "W", 3: "W"},
}
WIDE = ("wC_rBG", "wBCG")

PIDS = ("C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C18", "C22", "C23", "C24", "C39")


def isar(name):
    return CASES[name]["m"] == "W"


class Tx:
    def __init__(self, prog, rec, name, prefix="tx_"):
        self.rec, self.name, self.prog = rec, name, prog
        self.ar = isar(name)
        self.n = ncomp(prog)
        self.allk = ("m",) + tuple(range(self.n))
        self.expect = dict(CASES[name])
        if self.ar:
            self.expect.update({k: "W" for k in self.allk})
        self.scen = f"{prefix}{name} ({prog.name})"
        self.W = World(prog, rec, self.scen, on_mark=self.mark, setup=self.setup)
        self.W.before_write_unlock = self.before_write_unlock
        self.R, self.I = self.W.R, self.W.I
        getp.I = self.I
        self.prefix = prefix

    def setup(self, W):
        if self.prefix == "ts_":  # first transaction: queues may not exist
            for i in range(1 + self.n):
                W.I.poke(ref(ECS, ("eventLists", i, "writeQueue")), sel(sel(sel(R0, "eventLists"), i), "writeQueue"))

    def mark(self, W, name):
        I = self.I
        if name == "started":
            I.mon["started"] = 1
            hs = W.heldset()
            bad = [f"{lockname(k)} held as {hs.get(k)}, permission says {self.expect.get(k)}"
                   for k in self.allk if hs.get(k) != self.expect.get(k)]
            W.req("C08", not bad, "granted-set", f"transaction {self.name}: " + "; ".join(bad))
            if self.ar and self.prefix == "ts_":
                for i in range(1 + self.n):
                    v = I.peek(ref(ECS, ("eventLists", i, "writeQueue")))
                    W.req("C24", v is not NULL and (isT(v, "ref") or I.decide(tnot(teq(v, NULL))) is True), "queue-exists",
                          f"no event queue {i} after starting with add/remove permission")
        elif name == "havoc":
            hit = 0
            for r, v in list(I.mem.items()):
                if r[0] == "H" and isT(v, "obj") and "writeAccessedFlags" in v.d:
                    f = FLAGS
                    for b in range(1 + self.n):
                        can = self.expect["m"] == "W" if b == 0 else self.expect.get(b - 1) == "W"
                        f = I.update(f, (("b", b),), flag(b) if can else 0)
                    I.mem[r] = I.update(v, ("writeAccessedFlags",), f)
                    hit += 1
            if not hit:
                raise Undecided("no transaction object with access flags")
            if not (self.ar and I.truth(flag(0))):
                # nothing structural changed: sizes agree and the working lists and entity table are still the committed ones
                I.facts.assume(teq(NW, NR))
                if self.ar:
                    pass
        elif name == "ended":
            hs = W.heldset()
            W.req("C08", not hs, "all-released", f"transaction {self.name} has ended but still holds " +
                  ", ".join(f"{lockname(k)} ({v})" for k, v in hs.items()))

    # ---- C12 ----
    def before_write_unlock(self, k):
        I, W = self.I, self.W
        if not I.mon.get("started"):
            return
        I.event("wunlock", k)
        cm = I.mon.get(("cm", k))
        structural = self.ar and I.mon.get(("cm", "m"))
        pairs = []
        if k == "m":
            if cm:
                pairs = [("readComponents", "writeComponents"), ("readValidEntities", "writeValidEntities")]
                g = getp(I.mem, ("globalReadMetadata",)), getp(I.mem, ("globalWriteMetadata",))
                W.req("C12", g[0] is g[1], "working-equals-committed",
                      f"global component metadata: working copy is {show(g[1])[:80]}, committed {show(g[0])[:80]}")
        elif cm:
            pairs = [("readComponents", "writeComponents")]
            if structural and k in ENT:
                pairs.append(("readValidEntities", "writeValidEntities"))
        for a, b in pairs:
            va, vb = unwrap(getp(I.mem, tpath(k) + (a,))), unwrap(getp(I.mem, tpath(k) + (b,)))
            ok = va is vb
            if not ok and b == "writeComponents" and not structural:
                ok = self.elementwise(k, va, vb)
            W.req("C12", ok, "working-equals-committed",
                  f"{lockname(k)}: at this release {b} is {show(vb)[:90]} but {a} is {show(va)[:90]}")
        if not cm:
            v = unwrap(getp(I.mem, tpath(k) + ("writeComponents",)))
            W.req("C12", v is sel(table(k), "writeComponents") or None, "working-equals-committed",
                  f"{lockname(k)}: not committed but working copy changed to {show(v)[:90]}")

    def elementwise(self, k, va, vb):
        """vb results from a loop that copies the committed value of every listed entity into the working copy"""
        b = vb.a[0] if isT(vb, "seq") else None
        if not isT(b, "accx"):
            return self.overlay(va, vb)
        lid = b.a[0]
        for S in self.loops(self.I.events()):
            if S.lid != lid:
                continue
            fixed = [key for key in S.mod if key[0] == ECS]
            if fixed != [(ECS, tpath(k) + ("writeComponents",))]:
                return False
            ent = S.entry[0][ECS]
            lists = {f: self.I.select(self.sub(ent, tpath(k)), f) for f in LISTS}
            for q in S.paths:
                if q["kind"] == "exit0":
                    fine = any(q["facts"].decide_le0(lin_add(self.len(l), S.K, -1)) for l in lists.values())
                    if not fine:
                        return False
                elif q["kind"] == "again":
                    wr = [e for e in q["ev"] if e[0] == "wr" and e[1] == ECS]
                    if len(wr) != 1:
                        return False
                    idx = wr[0][2][-1]
                    want = None
                    for l in lists.values():
                        e = self.I.select(l, ("i", S.K))
                        e = self.I.select(e, "index")
                        if idx[1] is e:
                            want = self.I.select(va, ("i", e))
                    if want is None or wr[0][3] is not want:
                        return False
                else:
                    return False
            return True
        return False

    def overlay(self, va, vb):
        b = vb.a[0] if isT(vb, "seq") else None
        if isT(b, "overlay") and b.a[1] == 0 and unwrap(b.a[2]) is va:
            return True
        return False

    def sub(self, v, path):
        for a in path:
            v = self.I.select(v, a)
        return v

    def len(self, v):
        s = self.I.as_seq(v)
        return lin_add(s.a[2], s.a[1], -1)

    def loops(self, evs):
        for e in evs:
            if e[0] == "loop":
                yield e[1]
                for q in e[1].paths:
                    yield from self.loops(q["ev"])

    # ---- end of the transaction ----
    def run(self):
        rec = self.rec
        paths = self.R.run(self.prefix + self.name)
        if self.I.notes - {"path limit"}:
            for n in self.I.notes:
                if n.startswith("monitor state"):
                    for p in PIDS:
                        rec.undecided(p, "loops", self.scen, n)
        n = 0
        for p in paths:
            if p.kind == "raise":
                where = self.prog.loc(p.val.loc) if isinstance(p.val, Throw) else "?"
                for pid in PIDS:
                    rec.violation(pid, {"C08": "all-released"}.get(pid, "path"), self.scen, f"the transaction fails with an exception thrown at {where}")
                continue
            if p.kind != "stop":
                continue
            n += 1
            self.I.restore(p.snap)
            if self.prefix == "tx_":
                self.final(p)
        rec.count("abstract post-states", n)
        rec.count("scenarios")
        rec.count("steps", self.I.steps)
        rec.fns |= {self.prog.fns[f]["q"] for f in self.I.fns_seen if self.prog.fns[f]["q"].startswith("Tecs")}
        if not n:
            for pid in PIDS:
                rec.undecided(pid, "paths", self.scen, "no complete path")

    def final(self, p):
        I, rec = self.I, self.rec
        loc = "end of transaction, " + self.scen
        mem, facts = p.mem, p.facts
        ev = p.events
        structural = self.ar and facts.decide(flag(0))
        where = loc
        fl = {k: (facts.decide(flag(1 + k)) if self.expect.get(k) == "W" else False) for k in range(self.n)}
        cond = f"structural={structural} flags={ {COMPS[k]: v for k, v in fl.items()} }"
        path = [f"{e[0]} {e[1]} {lockname(e[2])}" for e in ev if e[0] == "prim"]

        def req(pid, c, rule, what):
            rec.require(pid, c, rule, where, what + " [" + cond + "]", path)

        for k in self.allk:
            cm = I.mon.get(("cm", k))
            f = structural if k == "m" else fl[k]
            rc = unwrap(getp(mem, tpath(k) + ("readComponents",)))
            w0, r0 = sel(table(k), "writeComponents"), sel(table(k), "readComponents")
            if f is None:
                # the ending never looked at the flag: then it must be right for both
                for pid in ("C13", "C14"):
                    rec.require(pid, False if not (cm is None and self.ar is False and k == "m") else True,
                                "flagged-is-published" if pid == "C13" else "unflagged-not-locked", where,
                                f"whether the {lockname(k)} was changed is not taken into account [{cond}]", path)
                continue
            if f:
                req("C13", rc is w0, "flagged-is-published", f"{lockname(k)} was changed but its committed data is {show(rc)[:80]}")
                req("C11", rc is w0 and cm == 1, "published-part", f"{lockname(k)} was changed but its committed data is {show(rc)[:80]}")
            else:
                req("C14", not cm, "unflagged-not-locked", f"commit lock of the {lockname(k)} requested although nothing in it changed")
                req("C14", rc is r0, "unflagged-not-published", f"{lockname(k)} not changed but its committed data is {show(rc)[:80]}")
            if k in GLOBAL:
                continue
            rl = unwrap(getp(mem, tpath(k) + ("readValidEntities",)))
            if not (f and structural):
                req("C14", rl is sel(table(k), "readValidEntities"), "unflagged-not-published",
                    f"committed entity list of the {lockname(k)} changed to {show(rl)[:80]} although not flagged")
            wl = unwrap(getp(mem, tpath(k) + ("writeValidEntities",)))
            if structural:
                # (C22) list rebuilt
                if f:
                    req("C13", self.rebuilt(p, k, rl, req), "flagged-is-published",
                        f"the committed list of the {lockname(k)} is not the rebuilt one: {show(rl)[:80]}")
                    self.rebuilt_list(p, k, rl, req)
                elif wl is not sel(table(k), "writeValidEntities"):
                    self.rebuilt_list(p, k, wl, req)
                self.events_of(p, k, req)
            else:
                req("C12", wl is sel(table(k), "writeValidEntities"), "working-equals-committed",
                    f"working list of the {lockname(k)} changed to {show(wl)[:80]} without a structural commit")
        g = getp(mem, ("globalReadMetadata",))
        g0r, g0w = sel(R0, "globalReadMetadata"), sel(R0, "globalWriteMetadata")
        if structural:
            req("C13", g is g0w, "flagged-is-published", f"global metadata committed is {show(g)[:60]}")
            self.free_list(p, req)
            self.global_events(p, req)
        elif structural is False:
            req("C14", g is g0r, "unflagged-not-published", f"global metadata committed is {show(g)[:60]}")
        # C24
        for i in range(1 + self.n):
            q = mem.get(("Q", i))
            if structural:
                s = I.as_seq(q)
                req("C24", s.a[1] is s.a[2] or s.a[1] == s.a[2] or facts.decide(teq(lin_add(s.a[2], s.a[1], -1), 0)) is True, "queue-emptied",
                    f"event queue {i} is not empty after the commit: {show(q)[:80]}")
                self.delivered(p, i, req)
            elif structural is False:
                req("C24", q is mk("init", ("Q", i)) and not self.appends(ev, i), "queue-emptied",
                    f"event queue {i} used although nothing structural changed")

    # ---- C22 ----
    def find_loop(self, p, key):
        """summarised loops (outermost) that modify location key"""
        return [e[1] for e in p.events if e[0] == "loop" and key in e[1].mod]

    def rebuilt(self, p, k, v, req):
        b = v.a[0] if isT(v, "seq") else v
        return isT(b, "accx")

    def covers(self, S, n):
        """the loop's index runs over 0..n-1 exactly, no early exit"""
        for q in S.paths:
            if q["kind"] == "exit0":
                if not q["facts"].decide_le0(lin_add(n, S.K, -1)):
                    return f"the loop can stop before element {show(n)}"
            elif q["kind"] != "again":
                return "the loop can be left early"
            elif q["facts"].decide_le0(lin_add(lin_add(S.K, n, -1), 1)) is not True and q["facts"].decide_eq(S.K, n) is not False:
                return "the loop can run past the table"
        if not any(q["kind"] == "exit0" for q in S.paths):
            return "no regular exit"
        return None

    def wtab(self, S):
        return unwrap(self.sub(S.entry[0][ECS], ("metadata", "writeComponents")))

    def where_loop(self, S):
        return f"{S.lid[0]} in {S.fn}"

    def rebuilt_list(self, p, k, v, req):
        I, rec = self.I, self.rec
        b = v.a[0] if isT(v, "seq") else v
        lp = tpath(k) + ("writeValidEntities",)
        if not isT(b, "accx"):
            rec.violation("C22", "list-covers-table", self.scen, f"list of the {lockname(k)} is not rebuilt by a loop: {show(v)[:100]}")
            return
        S = None
        for e in p.events:
            if e[0] == "loop" and e[1].lid == b.a[0]:
                S = e[1]
        if S is None:
            rec.undecided("C22", "list-covers-table", self.scen, "loop not found")
            return
        wl = self.where_loop(S)
        root, path = b.a[1]
        # empty at entry
        v0 = S.entry[0].get(root)
        v0 = self.sub(v0, path)
        s0 = I.as_seq(v0)
        rec.require("C22", teq(s0.a[1], s0.a[2]) == 1 and not isinstance(s0.a[1], T) or s0.a[1] is s0.a[2], "list-covers-table", wl,
                    f"the list of the {lockname(k)} is not emptied before it is rebuilt")
        W = self.wtab(S)
        if W is not sel(META, "writeComponents"):
            rec.undecided("C22", "listed-iff-exists", wl, "entity table is not the working one")
            return
        # element index: K, or reversed
        K = S.K
        idx = None
        for q in S.paths:
            for e in q["ev"]:
                if e[0] == "push" and self.target(e[1]) == (root, path):
                    idx = I.select(e[3], "index") if isT(e[3]) else None
        if idx is None:
            rec.violation("C22", "listed-iff-exists", wl, f"no entity is ever appended to the list of the {lockname(k)}")
            return
        if not self.known_index(idx, K):
            rec.undecided("C22", "list-covers-table", wl, f"index {show(idx)[:80]} of the loop is not understood")
            return
        c = self.covers(S, NW)
        rec.require("C22", c is None, "list-covers-table", wl, f"list of the {lockname(k)}: {c}")
        if not (idx is K or idx is lin_add(lin_add(NW, -1), K, -1)):
            rec.violation("C22", "listed-iff-exists", wl, f"the {lockname(k)}'s list receives index {show(idx)} in iteration {show(K)}")
            return
        el = sel(W, ("i", idx))
        E, H = mterm(sel(el, ("b", 0))), None if k == "m" else mterm(sel(el, ("b", 1 + k)))
        gen = sel(el, "generation")
        vpath = tpath(k) + ("validEntityIndexes",)
        split = [x for x in self.find_loop(p, (ECS, vpath)) if x is not S]
        for q in S.paths:
            if q["kind"] != "again":
                continue
            f = q["facts"]
            ps = [e for e in q["ev"] if e[0] == "push" and self.target(e[1]) == (root, path)]
            e_, h_ = f.decide(E), True if H is None else f.decide(H)
            rec.require("C22", len(ps) <= 1, "listed-iff-exists", wl, f"appended {len(ps)} times")
            if ps:
                good = h_ is True and (e_ is True or (H is not None and e_ is None))
                rec.require("C22", good, "listed-iff-exists", wl,
                            f"appended to the list of the {lockname(k)} although exists={e_}, has component={h_}", [show(x) for x in f.lins])
                pv = ps[0][3]
                g = I.select(pv, "generation") if isT(pv) else None
                rec.require("C22", I.select(pv, "index") is idx and g is gen, "listed-iff-exists", wl,
                            f"entry appended to the list of the {lockname(k)} is {show(pv)[:100]}")
                wv = [e for e in q["ev"] if e[0] == "wr" and e[1] == ECS and e[2][:len(vpath)] == vpath]
                if split and not wv:
                    rec.undecided("C22", "index-points-to-entry", wl, "positions recorded by another loop")
                else:
                    ok = len(wv) == 1 and wv[0][2][len(vpath):] == (("i", idx),) and wv[0][3] is ps[0][2]
                    rec.require("C22", ok, "index-points-to-entry", wl,
                                f"position recorded for the {lockname(k)}: " + (f"[{show(wv[0][2][-1])}] = {show(wv[0][3])}" if wv else "none") +
                                f", entry is at {show(ps[0][2])}")
            else:
                rec.require("C22", e_ is False or h_ is False, "listed-iff-exists", wl,
                            f"not appended to the list of the {lockname(k)} although exists={e_}, has component={h_}", [show(x) for x in f.lins])
        rec.count("rebuilding loops")

    def known_index(self, idx, K):
        """an affine function of the iteration number and table sizes only"""
        if isinstance(idx, int):
            return True
        return linear(idx) and all(a is K or a is NW or a is NR for a in atoms_of(idx))

    def target(self, r):
        if isT(r, "ref"):
            return r.a
        return None

    def free_list(self, p, req):
        I, rec = self.I, self.rec
        key = (ECS, ("freeEntities",))
        v = getp(p.mem, ("freeEntities",))
        b = v.a[0] if isT(v, "seq") else v
        if not isT(b, "accx"):
            rec.require("C22", False, "free-list", self.scen, f"the free list is not rebuilt: {show(v)[:100]}")
            rec.require("C18", False, "free-list", self.scen, f"the free list is not rebuilt: {show(v)[:100]}")
            return
        S = next((e[1] for e in p.events if e[0] == "loop" and e[1].lid == b.a[0]), None)
        wl = self.where_loop(S)
        c = self.covers(S, NW)
        root, path = b.a[1]
        s0 = I.as_seq(self.sub(S.entry[0][root], path))
        pidx = [I.select(e[3], "index") for q in S.paths for e in q["ev"] if e[0] == "push" and self.target(e[1]) == (root, path) and isT(e[3])]
        if pidx and not self.known_index(pidx[0], S.K):
            for pid in ("C22", "C18"):
                rec.undecided(pid, "free-list", wl, "index of the loop is not understood")
            return
        for pid in ("C22", "C18"):
            rec.require(pid, c is None, "free-list", wl, f"free list: {c}")
            rec.require(pid, s0.a[1] == s0.a[2] or s0.a[1] is s0.a[2], "free-list", wl, "the free list is not emptied before it is rebuilt")
        W = self.wtab(S)
        K = S.K
        idx = None
        for q in S.paths:
            for e in q["ev"]:
                if e[0] == "push" and self.target(e[1]) == (root, path):
                    idx = I.select(e[3], "index")
        if idx is None:
            idx = K
        el = sel(W, ("i", idx))
        E = mterm(sel(el, ("b", 0)))
        gen = sel(el, "generation")
        for q in S.paths:
            if q["kind"] != "again":
                continue
            ps = [e for e in q["ev"] if e[0] == "push" and self.target(e[1]) == (root, path)]
            e_ = q["facts"].decide(E)
            for pid in ("C22", "C18"):
                if ps:
                    rec.require(pid, len(ps) == 1 and e_ is False, "free-list", wl,
                                f"slot put on the free list {len(ps)} times although exists={e_}")
                elif pid == "C22":
                    rec.require(pid, e_ is True, "free-list", wl, f"slot not put on the free list although exists={e_}")
            if ps:
                from .bits import gen_spec
                g = I.select(ps[0][3], "generation")
                ok, why = gen_spec(g, gen, 1)
                rec.require("C18", ok, "next-generation", wl, f"free slot's generation is {show(g)[:120]}: {why}")
                rec.require("C18", I.select(ps[0][3], "index") is idx and (idx is K or idx is lin_add(lin_add(NW, -1), K, -1)),
                            "next-generation", wl, f"free slot's index is {show(idx)}")

    # ---- C23 ----
    def queue_pushes(self, ev, i):
        return [e for e in ev if e[0] == "push" and self.target(e[1]) == (("Q", i), ())]

    def any_queue(self, ev, i):
        return any(True for e in ev if e[0] in ("push", "append") and self.target(e[1]) == (("Q", i), ())) or \
            any(e[0] == "loop" and any(self.any_queue(q["ev"], i) for q in e[1].paths) for e in ev)

    def check_events(self, pushes, facts, oldX, newX, geq, idx, gens, vals, where, what, pin=()):
        """pushes: actual events of one path; compare with the table for every refinement of the path's facts"""
        I, rec = self.I, self.rec
        act = []
        for e in pushes:
            v = e[3]
            if not isT(v):
                rec.undecided("C23", "event-table", where, "unknown event")
                return
            ent = I.select(v, "entity")
            act.append((I.select(v, "type"), I.select(ent, "index"), I.select(ent, "generation"),
                        I.select(v, "component") if vals is not None else None))
        for o in (0, 1):
            for n in (0, 1):
                for g in (0, 1):
                    f = facts.copy()
                    try:
                        for t, x in ((oldX, o), (newX, n), (geq, g)):
                            f.assume(t, bool(x)) if not isinstance(t, int) else self.chk(t, x)
                        for t, x in pin:
                            if x:
                                pass
                    except Infeasible:
                        continue
                    if not all(self.inv_ok(f, t, xs, (o, n)) for t, xs in pin):
                        continue
                    exp = []
                    if o and not (n and g):
                        exp.append((self.REMOVED, 0))
                    if n and not (o and g):
                        exp.append((self.ADDED, 1))
                    sit = f"existed={bool(o)} exists={bool(n)} same id={bool(g)}"
                    good = [a[0] for a in act] == [x[0] for x in exp]
                    rec.require("C23", good, "event-table", where,
                                f"{what}: for an entity with {sit} the events queued are {[self.ename(a[0]) for a in act]}, "
                                f"expected {[self.ename(x[0]) for x in exp]}", [show(l) for l in f.lins])
                    if good:
                        for a, x in zip(act, exp):
                            side = x[1]
                            okid = self.same(a[1], idx, f) and self.same(a[2], gens[side], f)
                            rec.require("C23", okid, "event-content", where,
                                        f"{what}: {self.ename(x[0])} event reports id ({show(a[1])[:60]}, {show(a[2])[:60]})")
                            if vals is not None:
                                rec.require("C23", self.samev(a[3], vals[side]), "event-content", where,
                                            f"{what}: {self.ename(x[0])} event carries {show(a[3])[:100]}")

    def chk(self, t, x):
        if bool(t) != bool(x):
            raise Infeasible()

    def inv_ok(self, f, exists, which, on):
        """a component of an entity that does not exist is never set (Destroy removes all of them)"""
        return not (on[which] == 1 and f.decide(exists) is False)

    def same(self, a, b, f):
        if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
            return True
        if isinstance(a, int) or isinstance(b, int) or linear(a) and linear(b):
            return f.decide_eq(a, b) is True
        return False

    def samev(self, a, b):
        return a is b or isT(a) and isT(b) and self.flatten(a) is b

    def flatten(self, a):
        if isT(a, "obj") and isT(a.a[0]) and a.d and all(self.I.select(a.a[0], k) is v for k, v in a.d.items()):
            return a.a[0]
        if isT(a, "obj"):
            bases = {v.a[0] if isT(v, "sel") and v.a[1] == k else None for k, v in a.d.items()}
            if len(bases) == 1 and None not in bases:
                return bases.pop()
        return a

    def ename(self, t):
        return {self.ADDED: "ADDED", self.REMOVED: "REMOVED"}.get(t, show(t) if not isinstance(t, int) else f"type {t}")

    ADDED, REMOVED = 1, 2

    def events_of(self, p, k, req):
        I, rec = self.I, self.rec
        i = 0 if k == "m" else 1 + k
        what = "entity events" if k == "m" else f"events of component {COMPS[k]}"
        ls = [e[1] for e in p.events if e[0] == "loop" and any(self.queue_pushes(q["ev"], i) for q in e[1].paths)]
        flat = self.queue_pushes(p.events, i)
        if flat:
            rec.require("C23", False, "event-table", self.scen, f"{what}: events queued outside the comparison of old and new entities")
        if len(ls) != 1:
            if not ls:
                rec.violation("C23", "event-table", self.scen, f"{what}: none are ever queued")
            else:
                rec.undecided("C23", "event-table", self.scen, f"{what}: queued by {len(ls)} loops")
            return
        S = ls[0]
        wl = self.where_loop(S)
        pidx = [I.select(I.select(e[3], "entity"), "index") for q in S.paths for e in self.queue_pushes(q["ev"], i) if isT(e[3])]
        if any(not self.known_index(x, S.K) for x in pidx):
            rec.undecided("C23", "event-table", wl, "index of the loop is not understood")
            return
        c = self.covers(S, NW)
        rec.require("C23", c is None, "events-cover-table", wl, f"{what}: {c}")
        for q in S.paths:
            if q["kind"] != "again":
                continue
            K = S.K
            W, f = self.wtab(S), q["facts"]
            ps = self.queue_pushes(q["ev"], i)
            if any(e[0] == "loop" and self.any_queue([e], i) for e in q["ev"]):
                rec.undecided("C23", "event-table", wl, "nested loop")
                continue
            new = sel(W, ("i", K))
            inr = f.decide_le0(lin_add(lin_add(K, NR, -1), 1))
            old = sel(sel(META, "readComponents"), ("i", K))
            bit = 0 if k == "m" else 1 + k
            newX, oldX = mterm(sel(new, ("b", bit))), mterm(sel(old, ("b", bit))) if inr is not False else 0
            if inr is None:
                # the loop does not distinguish: consider both
                pass
            gens = (sel(old, "generation"), sel(new, "generation"))
            for g in gens:
                ATOMB.setdefault(g, (0, MAXIDX))
            geq = self.I.eqterm(gens[0], gens[1]) if inr is not False else self.I.eqterm(0, gens[1])
            vals = None
            if k != "m":
                vals = (sel(sel(table(k), "readComponents"), ("i", K)), sel(sel(table(k), "writeComponents"), ("i", K)))
            pin = [] if k == "m" else [(mterm(sel(new, ("b", 0))), 1)] + ([(mterm(sel(old, ("b", 0))), 0)] if inr is not False else [])
            self.check_events(ps, f, oldX, newX, geq, K, gens, vals, wl, what, pin)
        rec.count("event loops")

    def global_events(self, p, req):
        for k in GLOBAL:
            i = 1 + k
            ps = self.queue_pushes(p.events, i)
            ls = [e for e in p.events if e[0] == "loop" and self.any_queue([e], i) and not self.is_append_loop(e[1])]
            if ls:
                self.rec.undecided("C23", "global-events", self.scen, "events of a global component in a loop")
                continue
            oldX = mterm(sel(sel(R0, "globalReadMetadata"), ("b", 1 + k)))
            newX = mterm(sel(sel(R0, "globalWriteMetadata"), ("b", 1 + k)))
            vals = (sel(sel(table(k), "readComponents"), ("i", 0)), sel(sel(table(k), "writeComponents"), ("i", 0)))
            self.check_events(ps, p.facts, oldX, newX, 1, 0, (0, 0), vals, "commit of global component " + COMPS[k] + ", " + self.scen,
                              f"events of global component {COMPS[k]}")

    # ---- C24 ----
    def appends(self, ev, i):
        r = []
        for e in ev:
            if e[0] == "append" and isT(e[2], "it") and self.target(e[2].a[0]) == (("Q", i), ()):
                r.append(e)
            elif e[0] == "loop":
                for q in e[1].paths:
                    r += self.appends(q["ev"], i)
        return r

    def is_append_loop(self, S):
        return any(e[0] == "append" for q in S.paths for e in q["ev"])

    def delivered(self, p, i, req):
        I, rec = self.I, self.rec
        ls = [e[1] for e in p.events if e[0] == "loop" and self.appends([e], i)]
        if not ls:
            each = [e[1] for e in p.events if e[0] == "loop" and self.obs_pushes(e[1], i)]
            if len(each) == 1:
                self.delivered_each(p, i, each[0])
            elif self.touches_observers(p.events, i):
                rec.undecided("C24", "delivered-to-all", self.scen, f"queue {i} delivered in an unrecognised way")
            else:
                rec.violation("C24", "delivered-to-all", self.scen, f"event queue {i} is not delivered to the observers by a commit")
            return
        if len(ls) > 1:
            rec.violation("C24", "delivered-to-all", self.scen, f"event queue {i} is delivered by {len(ls)} loops")
            return
        S = ls[0]
        wl = self.where_loop(S)
        obs = sel(sel(sel(R0, "eventLists"), i), "observers")
        n = self.len(obs)
        c = self.covers(S, n)
        rec.require("C24", c is None, "delivered-to-all", wl, f"queue {i}: not every observer is served: {c}")
        # the queue still holds all events of this commit, and no event is queued after delivery
        pos = p.events.index(next(e for e in p.events if e[0] == "loop" and e[1] is S))
        late = [e for e in p.events[pos + 1:] if self.any_queue([e], i)]
        rec.require("C24", not late, "delivered-to-all", wl, f"events are queued in queue {i} after it was delivered")
        q0 = S.entry[0].get(("Q", i))
        s = I.as_seq(q0)
        for q in S.paths:
            if q["kind"] != "again":
                continue
            ap = self.appends(q["ev"], i)
            ok = len(ap) == 1
            why = f"appended {len(ap)} times"
            if ok:
                e = ap[0]
                tgt = self.target(e[1])
                want = sel(obs, ("i", S.K))
                okt = tgt[0][0] == "P" and tgt[0][1] is want
                full = self.eq(e[2].a[1], s.a[1]) and self.eq(e[3].a[1], s.a[2])
                end = self.eq(e[4].a[1], e[5])
                ok, why = okt and full and end, (f"observer {show(tgt[0][1])[:60]}" if not okt else "not the whole queue" if not full else
                                                 "not inserted at the end")
            rec.require("C24", ok, "delivered-to-all", wl, f"queue {i}: {why}")
            odd = [e for e in q["ev"] if e[0] == "wr" and e[1][0] == "P" and not (isT(e[3], "seq") and any(o[0] == "app" for o in e[3].a[3]))]
            rec.require("C24", not odd, "delivered-to-all", wl, f"queue {i}: an observer's queue is changed in another way")
        rec.count("delivery loops")

    def is_obs(self, r, i):
        t = self.target(r)
        return t and t[0][0] == "P" and isT(t[0][1], "sel") and t[0][1].a[0] is sel(sel(sel(R0, "eventLists"), i), "observers")

    def touches_observers(self, ev, i):
        return any(e[0] in ("push", "append") and self.is_obs(e[1], i) or e[0] == "wr" and e[1][0] == "P" and self.is_obs(ref(e[1]), i) or
                   e[0] == "loop" and any(self.touches_observers(q["ev"], i) for q in e[1].paths) for e in ev)

    def obs_pushes(self, S, i):
        return [(q, e[1]) for q in S.paths if q["kind"] == "again" for e in q["ev"]
                if e[0] == "loop" and any(x[0] == "push" and self.is_obs(x[1], i) for r in e[1].paths for x in r["ev"])]

    def delivered_each(self, p, i, S):
        """for every observer, a loop appends the elements of the queue one by one"""
        I, rec = self.I, self.rec
        wl = self.where_loop(S)
        obs = sel(sel(sel(R0, "eventLists"), i), "observers")
        c = self.covers(S, self.len(obs))
        rec.require("C24", c is None, "delivered-to-all", wl, f"queue {i}: not every observer is served: {c}")
        pos = p.events.index(next(e for e in p.events if e[0] == "loop" and e[1] is S))
        rec.require("C24", not [e for e in p.events[pos + 1:] if self.any_queue([e], i)], "delivered-to-all", wl,
                    f"events are queued in queue {i} after it was delivered")
        inner = self.obs_pushes(S, i)
        saved = I.snap()
        for q in S.paths:
            if q["kind"] != "again":
                continue
            l = [S2 for r, S2 in inner if r is q]
            if len(l) != 1:
                rec.violation("C24", "delivered-to-all", wl, f"queue {i}: appended by {len(l)} loops")
                continue
            S2 = l[0]
            q0 = S2.entry[0].get(("Q", i))
            c = self.covers(S2, self.len(q0))
            rec.require("C24", c is None, "delivered-to-all", wl, f"queue {i}: not the whole queue: {c}")
            for r in S2.paths:
                if r["kind"] != "again":
                    continue
                ps = [x for x in r["ev"] if x[0] == "push"]
                ok = len(ps) == 1 and self.target(ps[0][1])[0][1] is mk("sel", obs, ("i", S.K))
                rec.require("C24", ok, "delivered-to-all", wl, f"queue {i}: {len(ps)} events appended per event of the queue, or to the wrong queue")
                if ok:
                    I.restore(saved)
                    I.facts = r["facts"].copy()
                    I.mem = dict(r["mem"])
                    vs = [v for k, v, st in I.explore(lambda: ("v", I.select(q0, ("i", S2.K))))]
                    I.restore(saved)
                    same = all(self.samev(ps[0][3], v) for v in vs)
                    rec.require("C24", same or None, "delivered-to-all", wl, f"queue {i}: appends {show(ps[0][3])[:80]}")
        rec.count("delivery loops")

    def eq(self, a, b):
        return a is b or isinstance(a, int) and isinstance(b, int) and a == b


def scenario(item):
    cfg, prefix, name = item
    rec = base.Rec()
    prog = base._progs[("tx", cfg, ())]
    try:
        Tx(prog, rec, name, prefix).run()
    except (Undecided, LookupError) as e:
        for pid in PIDS:
            rec.undecided(pid, "scenario", f"{prefix}{name} ({cfg})", str(e))
    return rec


def collect(thorough, note):
    cfgs = ["checked", "header", "unchecked", "other", "wide"] + (["cxx17", "tracing", "header-unchecked", "other-unchecked"] if thorough else [])
    items = []
    for cfg in cfgs:
        try:
            base.export("tx", cfg)
        except base.Broken as e:
            if cfg == "checked":
                raise
            note("configuration", cfg, str(e))
            continue
        names = [n for n in CASES if n not in WIDE] if cfg == "checked" or thorough else ["wA_rBG", "ar"]
        if cfg == "wide":
            names = ["none", "rG", *WIDE, "wB_rA", "wAG", "ar"]
        for n in names:
            items.append((cfg, "tx_", n))
        if cfg == "checked":
            items += [(cfg, "ts_", "ar"), (cfg, "ts_", "ar_wall")]
    items.sort(key=lambda x: not isar(x[2]))
    recs = base.pmap(scenario, items)
    # C32: what is wrong without run-time checks only
    with_checks = {(i[1], i[2]): {(x[0], x[1], plain(x[4], i[0])) for x in r.items if x[2] == "v"} for i, r in zip(items, recs) if i[0] == "checked"}
    for i, r in zip(items, recs):
        if "unchecked" not in i[0]:
            continue
        known = with_checks.get((i[1], i[2]), set())
        for x in list(r.items):
            if x[0] in PIDS and x[2] == "v" and (x[0], x[1], plain(x[4], i[0])) not in known:
                r.violation("C32", "transactions-alike", x[3], "without run-time checks: " + x[4], x[5])
            elif x[0] in PIDS and x[2] == "u":
                r.undecided("C32", "transactions-alike", x[3], x[4])
        for k, n in list(r.counts.items()):
            if isinstance(k, tuple) and k[0] in PIDS:
                r.ok("C32", "transactions-alike", n)
    return recs


def plain(what, cfg):
    return what.replace(cfg, "")


ASSUME = [
    "lock primitives behave as C01-C06 establish",
    "the entity table, component tables and position tables have one size per side (C26)",
    "a component bit is never set for an entity that does not exist (C21)",
]


EXPLAIN = {
    p: "Every path of starting and ending a transaction for 16 permission sets, with the set of flagged changes and the contents of "
       "all tables unknown; lock primitives abstracted to their typestate, loops over tables summarised for a generic entity."
    for p in PIDS + ("C32",)
}
