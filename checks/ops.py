"""C13, C14, C17-C21, C26, C31, C32 (and C10 inside transactions): every operation through every kind of lock, compared with
a reference semantics. The state before the operation is arbitrary; the state after it is compared location by location, for a
generic index into every table. Path conditions of the code and case distinctions of the reference refine the same facts."""
from .world import *
from .opstab import OPS, VARIANTS, cases, wide_cases
from .types import can, plist

LET = {0: "A", 1: "B", 2: "G", 3: "C"}
E0 = ("spec", "state")
TABF = ("readComponents", "writeComponents", "readValidEntities", "writeValidEntities", "validEntityIndexes")
BATCH = 3
QUERY = ("exists", "existed", "hasA", "hasAB", "hasnone", "hadA", "hadBA", "getc", "getr", "prev", "prevc", "entities", "pentities", "entitiesA",
         "pentitiesA", "ghas", "ghad", "ggetc", "ggetr", "gprev", "hasC", "hasCB", "hadC", "getcC", "prevC", "entitiesC")
PIDS = ("C10", "C13", "C14", "C17", "C18", "C19", "C20", "C21", "C26", "C31", "C32", "C39")

RULES = {
    "C10": {"access-held": "every read or write of shared state happens while holding the access that protects it"},
    "C13": {"change-is-flagged": "an operation that changed working data, or handed out modifiable access to it, flagged it for publication",
            "mutable-is-working": "modifiable access is access to the working copy"},
    "C14": {"only-touched-flagged": "an operation flags nothing it did not touch, and queries flag nothing",
            "query-changes-nothing": "a query leaves all data as it was"},
    "C17": {"throws-if-invalid": "an operation on an entity that does not exist, or on a component it lacks, throws exactly then",
            "failure-changes-nothing": "an operation that throws leaves all data as it was",
            "in-bounds": "every table access of a checked operation is within bounds"},
    "C18": {"new-id": "a new entity gets a slot that is not in use, the generation recorded for it and the identifier of its instance",
            "slots-added-once": "slots added to the free list are new, distinct and carry the instance's identifier",
            "free-list-untouched": "no other operation makes a slot available: a slot becomes free in the commit of the destruction"},
    "C19": {"query-result": "queries and reads return the state they are specified to show",
            "new-entity-visible": "a new entity exists and is listed at once"},
    "C20": {"state-after": "the state after setting or getting a component is exactly as specified"},
    "C21": {"state-after": "the state after removing components or destroying an entity is exactly as specified"},
    "C26": {"tables-cover-id": "every table has a slot for the new entity", "state-after": "existing slots are unchanged by growing the tables",
            "index-fits": "creation throws exactly when the index would not fit its type"},
    "C31": {"state-after": "the state after an operation on a global component is exactly as specified",
            "throws-if-missing": "accessing a missing global component throws exactly when specified",
            "change-is-flagged": "an operation that changed a global component flagged it for publication"},
    "C39": {"query-writes-nothing": "a query writes only its own local variables: nothing of the instance, of the transaction or of the process",
            "no-hidden-state": "whatever an operation writes is local, thread-local, atomic, the transaction's own or protected by access held"},
    "C32": {"same-as-specified": "without run-time checks a valid operation has the specified effect and result"},
}


_defaults = {}


class Expect:
    def __init__(self, state):
        self.state = state
        self.throws = False
        self.result = None  # ("bool", b) | ("val", term) | ("mut", k, path, value)
        self.flags = set()


class Op:
    def __init__(self, prog, rec, op, var):
        self.rec, self.op, self.var, self.prog = rec, op, var, prog
        self.checked = "unchecked" not in prog.name
        decl, P, S, isro = VARIANTS[var]
        self.S = can(S, COMPS[:ncomp(prog)])
        pw = can(P, COMPS[:ncomp(prog)])
        self.P = pw
        self.D = (pw[0], set(), False) if isro else pw
        self.ar = self.D[2]
        self.desc = f"{op} through {'a read-only view of ' if isro else ''}<{plist(P)}>" + (f" as <{plist(S)}>" if S != P and not isro else "")
        self.W = World(prog, rec, f"{self.desc} ({prog.name})", on_mark=self.mark)
        self.R, self.I = self.W.R, self.W.I
        getp.I = self.I
        orig = self.R.param

        def param(p):
            n = p["n"]
            if n in ("eA", "eB", "eM"):
                k = {"eA": 0, "eB": 1, "eM": "m"}[n]
                idx = mk("K", "handle")
                ATOMB[idx] = (0, MAXIDX)
                self.I.facts.assume(tlt(idx, mk("size", sel(table(k), "writeValidEntities"))))
                return ref(ECS, tpath(k) + ("writeValidEntities", ("i", idx)))
            return orig(p)

        self.R.param = param

    # ----- beginning -----
    def mark(self, W, name):
        I = self.I
        if name == "begin":
            hit = 0
            for r, v in list(I.mem.items()):
                if r[0] == "H" and isT(v, "obj") and "writeAccessedFlags" in v.d:
                    f = FLAGS
                    for b in range(1 + W.n):
                        c = self.P[2] if b == 0 else COMPS[b - 1] in self.P[1]
                        f = I.update(f, (("b", b),), flag(b) if c else 0)
                    I.mem[r] = I.update(v, ("writeAccessedFlags",), f)
                    I.mem[("spec", "tx")] = mk("str", r)
                    hit += 1
            if hit != 1:
                raise Undecided("no transaction object with access flags")
            if not self.P[2]:
                I.facts.assume(teq(NW, NR))
            I.mem[E0] = I.mem[ECS]
            if self.op in QUERY:
                I.mon["query"] = ("query", tuple(r for r in I.mem if r[0] == "H"))
            if self.op == "new":
                # slots on the free list are within the tables (C18, C22)
                fr = sel(R0, "freeEntities")
                for pos in (0, lin_add(mk("size", fr), -1)):
                    I.facts.assume(tlt(self.num(self.fld(fr, ("i", pos), "index")), NW))
        elif name == "stop":
            if I.mon.pop("query", None):
                self.rec.ok("C39", "query-writes-nothing")
            self.check()

    # ----- reading the specification state -----
    def g(self, *path):
        return getp(self.cur, path)

    def fld(self, v, *acc):
        for a in acc:
            v = self.I.select(v, a)
        return v

    def bit(self, v, b):
        t = self.fld(v, ("b", b))
        return mterm(t) if isT(t, "sel") else t

    def num(self, v, hi=MAXIDX):
        if isT(v) and v.op in ("sel", "init") and v not in ATOMB:
            ATOMB[v] = (0, hi)
        return v

    def at(self, k, side, i):
        v = getp({ECS: self.cur}, tpath(k) + (side + "Components",))
        return self.I.select(v, ("i", i))

    def exists(self, side):
        I = self.I
        n = NW if side == "write" else NR
        if not I.truth(tlt(self.i, n)):
            return False
        m = self.at("m", side, self.i)
        if not I.truth(self.bit(m, 0)):
            return False
        return I.truth(teq(self.num(self.fld(m, "generation")), self.gen))

    def has(self, side, *ks):
        m = self.at("m", side, self.i)
        return all([self.I.truth(self.bit(m, 1 + k)) for k in ks])

    def ghas(self, side):
        v = getp({ECS: self.cur}, ("globalWriteMetadata" if side == "write" else "globalReadMetadata",))
        return self.I.truth(self.bit(v, 3))

    # ----- the reference semantics -----
    def put(self, path, val):
        self.cur = self.I.update(self.cur, path, val)

    def append(self, path, val):
        s = self.I.as_seq(getp({ECS: self.cur}, path))
        end = s.a[2]
        self.put(path, seq(s.a[0], s.a[1], lin_add(end, 1), s.a[3] + (("st", end, val),)))
        return lin_add(end, s.a[1], -1)

    def vside(self):
        return "write" if self.ar else "read"

    def dside(self, k):
        return "write" if COMPS[k] in self.D[1] or self.ar else "read"

    def entity(self, g, i):
        return obj(UNINIT, {"generation": g, "index": i})

    def add(self, k, x):
        """the entity gets component k"""
        self.put(tpath("m") + ("writeComponents", ("i", self.i), ("b", 1 + k)), 1)
        pos = self.append(tpath(k) + ("writeValidEntities",), self.entity(self.gen, self.i))
        self.put(tpath(k) + ("validEntityIndexes", ("i", self.i)), pos)
        x.flags |= {0, 1 + k}

    def drop(self, k, x):
        if not self.has("write", k):
            return
        self.put(tpath("m") + ("writeComponents", ("i", self.i), ("b", 1 + k)), 0)
        self.put(tpath(k) + ("writeComponents", ("i", self.i)), self.default(k))
        pos = self.num(self.fld(getp({ECS: self.cur}, tpath(k) + ("validEntityIndexes",)), ("i", self.i)))
        self.put(tpath(k) + ("writeValidEntities", ("i", pos)), self.entity(0, 0))
        x.flags |= {0, 1 + k}

    def expected(self):
        I, op = self.I, self.op
        self.cur = I.mem[E0]
        x = Expect(self.cur)
        root = self.handle()
        if root is not None:
            self.i = self.num(self.fld(root, "index"))
            self.gen = self.num(self.fld(root, "generation"))
        base = op.split("_")[0]
        if base in ("exists", "existed") or base[:3] in ("has", "had"):
            side = "read" if base == "existed" or base.startswith("had") else self.vside()
            ks = {"hasA": (0,), "hasAB": (0, 1), "hadA": (0,), "hadBA": (1, 0), "hasC": (3,), "hasCB": (3, 1), "hadC": (3,)}.get(base, ())
            x.result = ("bool", self.exists(side) and self.has(side, *ks))
        elif base in ("getc", "getr", "getcC"):
            k = 3 if base == "getcC" else 0
            if not self.exists(self.vside()) or not self.has(self.vside(), k):
                x.throws = True
            else:
                x.result = ("val", self.at(k, self.dside(k), self.i))
        elif base in ("prev", "prevc", "prevC"):
            k = 3 if base == "prevC" else 0
            if not self.exists("read") or not self.has("read", k):
                x.throws = True
            else:
                x.result = ("val", self.at(k, "read", self.i))
        elif base in ("getm", "getB", "getA", "setref", "setarg", "setdef", "setB", "setA", "getC", "setC"):
            k = {"B": 1, "C": 3}.get(base[-1], 0)
            x.flags.add(1 + k)
            if not self.exists(self.vside()):
                x.throws = True
            elif not self.has(self.vside(), k):
                if not self.S[2]:
                    x.throws = True
                else:
                    self.add(k, x)
                    self.put(tpath(k) + ("writeComponents", ("i", self.i)), self.default(k))
            if not x.throws:
                if base.startswith("set"):
                    v = self.default(k) if base == "setdef" else I.mem.get(("in", "val"), mk("init", ("in", "val")))
                    if base != "setdef":
                        v = mk("init", ("in", "val"))
                    self.put(tpath(k) + ("writeComponents", ("i", self.i)), v)
                x.result = ("mut", k, tpath(k) + ("writeComponents",), self.i, self.at(k, "write", self.i))
        elif base.startswith("unset"):
            if not self.exists("write"):
                x.throws = True
            else:
                for c in base[5:]:
                    self.drop(COMPS.index(c), x)
        elif base in ("destroy", "destroym"):
            x.flags.add(0)
            if not self.exists("write"):
                x.throws = True
            else:
                for k in self.W.ent:
                    self.drop(k, x)
                self.put(tpath("m") + ("writeComponents", ("i", self.i), ("b", 0)), 0)
                pos = self.num(self.fld(getp({ECS: self.cur}, tpath("m") + ("validEntityIndexes",)), ("i", self.i)))
                self.put(tpath("m") + ("writeValidEntities", ("i", pos)), self.entity(0, 0))
        elif base in ("ghas", "ghad"):
            x.result = ("bool", self.ghas("read" if base == "ghad" else self.vside()))
        elif base in ("ggetc", "ggetr", "gprev"):
            prev = base == "gprev"
            if not self.ghas("read" if prev else self.vside()):
                x.throws = True
            else:
                x.result = ("val", self.at(2, "read" if prev else self.dside(2), 0))
        elif base in ("ggetm", "gsetref", "gsetarg", "gsetdef"):
            x.flags.add(3)
            if not self.ghas(self.vside()):
                if not self.S[2]:
                    x.throws = True
                else:
                    x.flags.add(0)
                    self.put(("globalWriteMetadata", ("b", 3)), 1)
                    p = tpath(2) + ("writeComponents",)
                    s = I.as_seq(getp({ECS: self.cur}, p))
                    self.put(p, seq(s.a[0], s.a[1], lin_add(s.a[1], 1), s.a[3] + (("st", s.a[1], self.default(2)),)))
            else:
                I.facts.assume(teq(mk("size", sel(table(2), "writeComponents")), 1))
            if not x.throws:
                if base.startswith("gset"):
                    self.put(tpath(2) + ("writeComponents", ("i", 0)), self.default(2) if base == "gsetdef" else mk("init", ("in", "val")))
                x.result = ("mut", 2, tpath(2) + ("writeComponents",), 0, self.at(2, "write", 0))
        elif base == "gunset":
            if self.ghas("write"):
                I.facts.assume(teq(mk("size", sel(table(2), "writeComponents")), 1))
                x.flags |= {0, 3}
                self.put(("globalWriteMetadata", ("b", 3)), 0)
                self.put(tpath(2) + ("writeComponents", ("i", 0)), self.default(2))
        elif base in ("entities", "pentities", "entitiesA", "pentitiesA", "entitiesC"):
            k = {"A": 0, "C": 3}.get(base[-1], "m")
            f = ("read" if base[0] == "p" else self.vside()) + "ValidEntities"
            x.result = ("view", tpath(k) + (f,))
        else:
            raise Undecided("no specification for " + op)
        x.state = self.cur
        return x

    def default(self, k):
        """a default component, as its constructor makes it"""
        d = _defaults.get(self.prog.name)
        if d is None:
            W = World(self.prog, base.Rec(), "defaults", rules=False)
            for p in W.R.run("op_defaults"):
                for e in p.events:
                    if e[0] == "observe":
                        d = _defaults[self.prog.name] = [v for _, v in e[2]]
            getp.I = self.I
        return d[k]

    def fields(self, k):
        r = next(r for r in self.prog.records if r and r["q"] == "vf::" + LET[k])
        return [f["n"] for f in r["fields"]]

    def handle(self):
        I = self.I
        for n in ("e", "em"):
            if any(p["n"] == n for p in self.params):
                return mk("init", ("in", n))
        for n, k in (("eA", 0), ("eB", 1), ("eM", "m")):
            if any(p["n"] == n for p in self.params):
                return sel(table(k), "writeValidEntities", ("i", mk("K", "handle")))
        return None

    # ----- comparison -----
    def req(self, pids, cond, rule, what):
        pids = list(pids) if not isinstance(pids, str) else [pids]
        for pid in pids:
            self.rec.require(pid, cond, rule if rule in RULES[pid] else next(iter(RULES[pid])), self.loc(), f"{self.desc}: {what}", self.trail)
        if not self.checked:
            self.rec.require("C32", cond, "same-as-specified", self.loc(), f"{self.desc} (without checks): {what}", self.trail)

    def loc(self):
        return OPNAMES.get(self.op.split("_")[0], "Tecs")

    def trail(self):
        I = self.I
        r = [f"{self.desc} ({self.prog.name})"]
        for e in I.events()[self.start:]:
            if e[0] in ("wr", "push", "throw", "resize", "mark"):
                r.append(f"{I.p.loc(e[-1])}: " + " ".join(show(y) if isT(y) or isinstance(y, tuple) else str(y) for y in e[:-1])[:150])
        return r

    def kindpids(self):
        b = self.op.split("_")[0]
        if b.startswith("g") and not b.startswith("get"):
            return ["C31"]
        if b in QUERY:
            return ["C14"]
        if b.startswith(("set", "get")):
            return ["C20"]
        if b.startswith(("unset", "destroy")):
            return ["C21"]
        return ["C26"]

    def check(self):
        I = self.I
        evs = I.events()
        self.start = next(n for n, e in enumerate(evs) if e[0] == "mark" and e[1] == "begin")
        evs = evs[self.start:]
        self.evs = evs
        if self.op == "new":
            return self.check_new()
        x = self.expected()
        threw = any(e[0] == "mark" and e[1] == "threw" for e in evs)
        glob = self.op.startswith("g") and not self.op.startswith("get")
        if not self.checked and x.throws:
            return  # not a valid program
        self.bounds(evs)
        pid = "C31" if glob else "C17"
        self.req(pid, threw == x.throws, "throws-if-missing" if glob else "throws-if-invalid",
                 ("throws although the operation is valid" if threw else "does not throw although the operation is invalid") + self.why())
        if threw != x.throws:
            return
        if threw:
            self.compare([pid], "failure-changes-nothing" if not glob else "state-after", I.mem[E0])
            self.flags(x, True)
            return
        self.compare(self.kindpids(), "state-after" if self.kindpids() != ["C14"] else "query-changes-nothing", x.state)
        self.flags(x, False)
        self.result(x)
        if self.op.split("_")[0] == "destroym":
            h = I.peek(ref(("in", "em")))
            self.req("C21", self.same(self.fld(h, "generation"), 0) and self.same(self.fld(h, "index"), 0), "state-after", "the handle used is not null afterwards")

    def why(self):
        I = self.I
        s = []
        if getattr(self, "i", None) is not None:
            s.append("index " + ("within" if I.facts.decide(tlt(self.i, NW if self.ar else NR)) else "outside") + " the table")
        for a, v in [(show(a), v) for a, v in I.facts.atoms.items() if a in BOOLT and "metadata" in show(a)][:6]:
            s.append(f"{a}={v}")
        return " (" + ", ".join(s) + ")" if s else ""

    def same(self, a, b):
        """True / False / None (cannot tell)"""
        if a is b or (isinstance(a, int) and isinstance(b, int) and int(a) == int(b)):
            return True
        if a is ZERO:
            a = 0
        if b is ZERO:
            b = 0
        if isinstance(a, int) and isinstance(b, int):
            return int(a) == int(b)
        I = self.I
        for u, v in ((a, b), (b, a)):
            if isT(u) and u in BOOLT:
                if isinstance(v, int):
                    d = I.facts.decide(u)
                    return d == bool(v) if d is not None else False
                if isT(v) and v in BOOLT:
                    d, f = I.facts.decide(u), I.facts.decide(v)
                    return d == f if d is not None and f is not None else False
        if (isinstance(a, int) or linear(a)) and (isinstance(b, int) or linear(b)):
            d = I.facts.decide_eq(a, b)
            if d is not None:
                return d
            return False if free(a) and free(b) else None
        return None

    LEAF = {"m": [("b", 0), ("b", 1), ("b", 2), ("b", 3), ("b", 4), "generation"], "l": ["generation", "index"]}

    def compare(self, pids, rule, exp):
        """the final state equals exp at every location"""
        I = self.I
        fin = I.mem[ECS]
        if fin is exp:
            self.req(pids, True, rule, "")
            return
        for k in ("m",) + self.W.ent + GLOBAL:
            for f in TABF:
                if k in GLOBAL and "Components" not in f:
                    continue
                a, b = getp({ECS: fin}, tpath(k) + (f,)), getp({ECS: exp}, tpath(k) + (f,))
                if a is b:
                    self.req(pids, True, rule, "")
                    continue
                self.cmp_seq(pids, rule, k, f, a, b, fin)
        for f in ("globalReadMetadata", "globalWriteMetadata"):
            a, b = getp({ECS: fin}, (f,)), getp({ECS: exp}, (f,))
            ok = a is b or all(self.same(self.bit(a, n), self.bit(b, n)) for n in range(1, 1 + self.W.n))
            self.req(pids, ok, rule, f"{f} is {show(a)[:100]}, expected {show(b)[:100]}")
        for f in ("freeEntities", "eventLists"):
            a, b = getp({ECS: fin}, (f,)), getp({ECS: exp}, (f,))
            self.req(pids, a is b, rule, f"{f} changed: {show(a)[:120]}")
            if f == "freeEntities":
                self.req("C18", a is b, "free-list-untouched", f"free slots change before the commit: {show(a)[:120]}")

    def cmp_seq(self, pids, rule, k, f, a, b, fin):
        I = self.I
        name = ("entity " + f if k == "m" else f"{f} of {LET[k]}")
        sa, sb = I.as_seq(a), I.as_seq(b)
        na, nb = lin_add(sa.a[2], sa.a[1], -1), lin_add(sb.a[2], sb.a[1], -1)
        eq = self.same(na, nb)
        self.req(pids, eq, rule, f"size of {name} is {show(na)}, expected {show(nb)}")
        if not eq:
            return
        K = mk("K", "any", str(k), f)
        ATOMB[K] = (0, MAXIDX)

        def go():
            I.facts.assume(tlt(K, nb))
            va, vb = I.select(sa, ("i", lin_add(K, sa.a[1]))), I.select(sb, ("i", lin_add(K, sb.a[1])))
            if f == "validEntityIndexes":
                # bookkeeping matters for entities that are listed
                m = I.select(getp({ECS: fin}, tpath("m") + ("writeComponents",)), ("i", K))
                if not I.truth(self.bit(m, 0)) or k != "m" and not I.truth(self.bit(m, 1 + k)):
                    return ("ok", None)
            self.cmp_elem(pids, rule, k, f, name, K, va, vb)
            return ("ok", None)

        I.explore(go)

    def cmp_elem(self, pids, rule, k, f, name, K, va, vb):
        if va is vb:
            self.req(pids, True, rule, "")
            return
        if f == "validEntityIndexes":
            ok = self.same(self.num(va), self.num(vb))
            self.req(pids, ok, rule, f"{name}[{show(K)}] is {show(va)[:80]}, expected {show(vb)[:80]}")
            return
        leafs = self.fields(k) if k != "m" and "Components" in f else self.LEAF["m" if k == "m" and "Components" in f else "l"]
        if not leafs:
            self.req(pids, True, rule, "")
        for l in leafs:
            x, y = self.fld(va, l), self.fld(vb, l)
            if isinstance(l, tuple):
                x, y = (mterm(x) if isT(x, "sel") else x), (mterm(y) if isT(y, "sel") else y)
            else:
                x, y = self.num(x), self.num(y)
            ok = self.same(x, y)
            self.req(pids, ok, rule, f"{name}: .{l if isinstance(l, str) else 'bit' + str(l[1])} of {self.whichidx(K)} is {show(x)[:80] if isT(x) else x}, "
                                     f"expected {show(y)[:80] if isT(y) else y}")
            if not ok:
                return

    def whichidx(self, K):
        i = getattr(self, "i", None)
        if i is not None and self.I.facts.decide(teq(K, i)) is True:
            return "the entity"
        if i is not None and self.I.facts.decide(teq(K, i)) is False:
            return "another entity"
        return "an element"

    def txflags(self):
        I = self.I
        r = I.mem[("spec", "tx")].a[0]
        v = I.mem.get(r)
        f = I.select(v, "writeAccessedFlags") if isT(v) else None
        return [I.select(f, ("b", b)) for b in range(1 + self.W.n)]

    def flags(self, x, threw):
        names = ("entity set",) + COMPS
        for b, t in enumerate(self.txflags()):
            init = flag(b) if (self.P[2] if b == 0 else COMPS[b - 1] in self.P[1]) else 0
            if not threw and b in x.flags and not (b == 0 and self.op.startswith("destroy") and False):
                self.req(["C13", "C31"] if 3 in x.flags else "C13", t == 1 if isinstance(t, int) else self.I.facts.decide(t) is True, "change-is-flagged",
                         f"{names[b]} was changed (or made modifiable) but is not flagged for publication")
            if b not in x.flags:
                ok = t is init or (isinstance(t, int) and isinstance(init, int) and t == init) or self.I.facts.decide(teq(t, init)) is True
                self.req("C14", ok, "only-touched-flagged", f"{names[b]} is flagged as changed although the operation does not touch it")

    def result(self, x):
        I = self.I
        if x.result is None:
            return
        obs = [e for e in self.evs if e[0] == "observe" and e[1] in ("result", "view")]
        if len(obs) != 1:
            self.req("C19", None, "query-result", "no result observed")
            return
        r, v = obs[0][2][0]
        kind = x.result[0]
        qp = ["C31"] if self.kindpids() == ["C31"] else ["C19"]
        if kind == "bool":
            got = I.truth(v)
            self.req(qp + (["C17"] if not x.result[1] and qp == ["C19"] else []), got == x.result[1], "query-result", f"returns {got}, specified is {x.result[1]}" + self.why())
        elif kind == "val":
            for f in self.fields(2 if qp == ["C31"] else 3 if self.op.endswith("C") else 0):
                a, b = self.num(self.fld(v, f)), self.num(self.fld(x.result[1], f))
                self.req(qp, self.same(a, b), "query-result", f"returns {show(a)[:100] if isT(a) else a}, specified is {show(b)[:100] if isT(b) else b}")
        elif kind == "mut":
            _, k, path, i, val = x.result
            okp = isT(r, "ref") and r.a[0] == ECS and r.a[1][:len(path)] == path and len(r.a[1]) == len(path) + 1
            ok = okp and self.same(r.a[1][-1][1], i)
            self.req("C13", ok, "mutable-is-working", f"the reference returned is {show(r)[:120]}, not the entity's working copy of {LET[k]}")
            for f in self.fields(k):
                a, b = self.num(self.fld(v, f)), self.num(self.fld(val, f))
                self.req("C31" if k == 2 else "C20", self.same(a, b), "state-after", f"returns {show(a)[:100] if isT(a) else a}, specified is {show(b)[:100] if isT(b) else b}")
        elif kind == "view":
            st, s0, s1 = self.fld(v, "storage"), self.fld(v, "start_index"), self.fld(v, "end_index")
            path = x.result[1]
            if isT(st, "it"):
                st = st.a[0]
            okp = isT(st, "ref") and st.a[0] == ECS and st.a[1] == path
            n = I.as_seq(getp(I.mem, path))
            self.req("C19", okp if isT(st, "ref") else None, "query-result", f"the list returned is {show(st)[:100]}, specified is {path}")
            if okp:
                self.req("C19", self.same(s0, 0) and self.same(s1, lin_add(n.a[2], n.a[1], -1)), "query-result", f"the view covers {show(s0)}..{show(s1)} of the list")

    # ----- bounds -----
    def bounds(self, evs):
        I = self.I
        for e in evs:
            if e[0] != "idx":
                continue
            _, c, i, ok, size = e[:5]
            if ok or not self.checked:
                if ok:
                    self.rec.ok("C17", "in-bounds")
                continue
            if not (isT(c, "ref") and c.a[0] == ECS):
                continue
            k, f, rest = locate(c.a[1])
            if f in ("writeValidEntities",) and self.is_vei(i, k):
                m = I.select(getp({ECS: I.mem[E0]}, tpath("m") + ("writeComponents",)), ("i", self.i))
                st = I.facts.decide(self.bit(m, 0 if k == "m" else 1 + k))
                if st is True:  # a listed entity's recorded position is within the list (C20, C22)
                    self.rec.ok("C17", "in-bounds")
                    continue
            if k in GLOBAL and i == 0:
                # a present global component has a slot (see C31)
                if any(I.facts.decide(self.bit(getp({ECS: I.mem[E0]}, (s,)), 3)) is True for s in ("globalWriteMetadata", "globalReadMetadata")):
                    continue
                self.rec.undecided("C17", "in-bounds", I.p.loc(e[-1]), "global component")
                continue
            if f == "freeEntities":
                continue
            self.rec.violation("C17", "in-bounds", I.p.loc(e[-1]), f"{self.desc}: {f}[{show(i)}] may be outside its {show(size)} elements", self.trail())

    def is_vei(self, i, k):
        return isT(i, "sel") and isT(i.a[0], "sel") and i.a[0].a[1] == "validEntityIndexes" and i.a[0].a[0] is table(k) and i.a[1] == ("i", self.i)

    # ----- NewEntity -----
    def check_new(self):
        I = self.I
        evs = self.evs
        st = I.mem[E0]
        fin = I.mem[ECS]
        threw = any(e[0] == "mark" and e[1] == "threw" for e in evs)
        free = sel(R0, "freeEntities")
        empty = I.truth(teq(mk("size", free), 0))
        if threw:
            fit = I.facts.decide(tle(lin_add(NW, BATCH), MAXIDX))
            self.req("C26", empty and fit is False, "index-fits", "throws although a slot is free or the index fits")
            return
        names = ("entity set",) + COMPS
        obs = [e for e in evs if e[0] == "observe"]
        nv = obs[0][2][0][1]
        x, gen = self.num(self.fld(nv, "index")), self.fld(nv, "generation")
        self.i = x
        ecsid = sel(R0, "ecsId")
        from .bits import gen_spec
        if empty:
            self.req("C26", I.facts.decide(tle(lin_add(NW, BATCH), MAXIDX)) is True, "index-fits", "hands out an id although the index may not fit its type")
            n1 = lin_add(NW, BATCH)
            inr = I.facts.decide(tle(NW, x)) is True and I.facts.decide(tlt(x, n1)) is True
            self.req("C18", inr, "new-id", f"the new slot {show(x)} is not one of the slots just added")
            ok, why = new_gen(gen)
            self.req("C18", ok, "new-id", f"generation of a first id is {show(gen)[:120]}: {why}")
        else:
            # some free slot, each at most once: it has left the list
            self.req("C18", self.taken(x, gen, fin, free), "new-id", f"the id handed out ({show(x)[:60]}, {show(gen)[:60]}) is not taken from the free list: {show(getp({ECS: fin}, ('freeEntities',)))[:100]}")
            n1 = NW
        # tables
        for k in ("m",) + self.W.ent:
            for fld in ("writeComponents", "validEntityIndexes"):
                s = I.as_seq(getp({ECS: fin}, tpath(k) + (fld,)))
                n = lin_add(s.a[2], s.a[1], -1)
                d = I.facts.decide(tlt(x, n))
                self.req("C26", d if d is not False else False, "tables-cover-id", f"{fld} of the {lockname(k)} has {show(n)} slots, the new index is {show(x)}") if d is not None else \
                    self.req("C26", False if linear(n) and linear(x) else None, "tables-cover-id", f"{fld} of the {lockname(k)} may have no slot for the new entity: {show(n)} slots, index {show(x)}")
                self.req("C26", self.same(n, n1), "tables-cover-id", f"{fld} of the {lockname(k)} has {show(n)} slots, specified are {show(n1)}")
        # contents
        self.cur = st
        one = I.select(getp({ECS: fin}, tpath("m") + ("writeComponents",)), ("i", x))
        self.req(["C19", "C18"], self.same(self.bit(one, 0), 1) and self.same(self.fld(one, "generation"), gen), "new-entity-visible", "the new entity is not recorded as existing with its generation")
        for b in (1, 2):
            v = self.bit(one, b)
            if not empty:
                I.facts.assume(tnot(self.bit(self.at("m", "write", x), b)))
            self.req("C19", self.same(v, 0), "new-entity-visible", f"the new entity already has component {LET[b - 1]}")
        l = I.as_seq(getp({ECS: fin}, tpath("m") + ("writeValidEntities",)))
        l0 = sel(table("m"), "writeValidEntities")
        n0 = mk("size", l0)
        self.req("C19", self.same(lin_add(l.a[2], l.a[1], -1), lin_add(n0, 1)), "new-entity-visible", "the entity list did not grow by one")
        last = I.select(l, ("i", lin_add(l.a[2], -1)))
        self.req("C19", self.same(self.fld(last, "index"), x) and self.same(self.fld(last, "generation"), gen), "new-entity-visible", "the last list entry is not the new entity")
        vei = I.select(getp({ECS: fin}, tpath("m") + ("validEntityIndexes",)), ("i", x))
        self.req("C19", self.same(vei, n0), "new-entity-visible", "the recorded list position is not the new entry")
        # everything else is as before
        for k in ("m",) + self.W.ent + GLOBAL:
            for f in TABF:
                if k in GLOBAL and "Components" not in f:
                    continue
                a, b = getp({ECS: fin}, tpath(k) + (f,)), getp({ECS: st}, tpath(k) + (f,))
                if a is b:
                    continue
                self.cmp_old(k, f, a, b, x, st)
        for f in ("globalReadMetadata", "globalWriteMetadata", "eventLists"):
            self.req("C26", getp({ECS: fin}, (f,)) is getp({ECS: st}, (f,)), "state-after", f"{f} changed")
        # flags
        want = {0} | {1 + k for k in self.W.ent} if empty else {0}
        for b, t in enumerate(self.txflags()):
            if b in want:
                self.req("C13", t == 1 if isinstance(t, int) else I.facts.decide(t) is True, "change-is-flagged", f"{names[b]} was changed but is not flagged for publication")
            else:
                self.req("C14", self.same(t, flag(b)), "only-touched-flagged", f"{names[b]} is flagged as changed although NewEntity does not touch it")
        if empty:
            self.new_slots(fin, x)

    def taken(self, x, gen, fin, free):
        I = self.I
        f = getp({ECS: fin}, ("freeEntities",))
        s = I.as_seq(f)
        n = mk("size", free)
        if s.a[0] is not free or s.a[3]:
            return None
        if I.facts.decide_eq(lin_add(s.a[2], s.a[1], -1), lin_add(n, -1)) is not True:
            return False
        pos = 0 if s.a[1] == 1 else lin_add(n, -1) if s.a[1] == 0 else None
        if pos is None:
            return None
        el = I.select(free, ("i", pos))
        return bool(self.same(x, self.fld(el, "index")) and self.same(gen, self.fld(el, "generation")))

    def new_slots(self, fin, x):
        I = self.I
        s = I.as_seq(getp({ECS: fin}, ("freeEntities",)))
        n = lin_add(s.a[2], s.a[1], -1)
        ok = self.same(n, BATCH - 1)
        self.req("C18", ok, "slots-added-once", f"{show(n)} slots are put on the free list, {BATCH - 1} were added besides the one handed out")
        if not ok:
            return
        idx = [x]
        for j in range(BATCH - 1):
            el = I.select(s, ("i", lin_add(s.a[1], j)))
            i, g = self.fld(el, "index"), self.fld(el, "generation")
            ok, why = new_gen(g)
            self.req("C18", ok, "slots-added-once", f"generation of a new free slot is {show(g)[:100]}: {why}")
            self.req("C18", I.facts.decide(tle(NW, i)) is True and I.facts.decide(tlt(i, lin_add(NW, BATCH))) is True, "slots-added-once", f"slot {show(i)} on the free list is not a new one")
            for o in idx:
                self.req("C18", I.facts.decide(teq(i, o)) is False, "slots-added-once", f"slot {show(i)} may be handed out twice")
            idx.append(i)

    def cmp_old(self, k, f, a, b, x, st):
        I = self.I
        name = ("entity " + f if k == "m" else f"{f} of {LET[k]}")
        sa, sb = I.as_seq(a), I.as_seq(b)
        nb = lin_add(sb.a[2], sb.a[1], -1)
        K = mk("K", "old", str(k), f)
        ATOMB[K] = (0, MAXIDX)

        def go():
            I.facts.assume(tlt(K, lin_add(sa.a[2], sa.a[1], -1)))
            new = f in ("writeComponents", "validEntityIndexes") and not I.truth(tlt(K, nb))
            if f != "writeValidEntities" and k == "m" and I.truth(teq(K, x)):
                return ("ok", None)
            if f == "writeValidEntities" and not I.truth(tlt(K, nb)):
                return ("ok", None)
            if f == "validEntityIndexes" and k != "m":
                if I.truth(teq(K, x)):
                    return ("ok", None)
            va = I.select(sa, ("i", lin_add(K, sa.a[1])))
            vb = (self.default(k) if f in ("writeComponents", "readComponents") and k != "m" else ZERO) if new else I.select(sb, ("i", lin_add(K, sb.a[1])))
            if new and f == "validEntityIndexes":
                return ("ok", None)
            self.cmp_elem(["C26"], "state-after", k, f, name, K, va, vb)
            return ("ok", None)

        I.explore(go)

    def run(self):
        name = f"op_{self.op}__{self.var}"
        c = [f for f in self.prog.fns if f and f["n"] == name and f.get("hasbody")]
        self.params = c[0]["params"]
        try:
            self.R.run(name)
        except Undecided as e:
            for pid in PIDS:
                if pid == "C32" and self.checked:
                    continue
                if pid in self.kindpids() + ["C13", "C14", "C17"] or pid == "C32":
                    self.rec.undecided(pid, next(iter(RULES[pid])), self.desc, str(e))
        self.rec.count("operation x lock scenarios")
        self.rec.fns |= {self.prog.fns[f]["q"] for f in self.I.fns_seen if self.prog.fns[f]["q"].startswith("Tecs")}


OPNAMES = {"exists": "Tecs::Entity::Exists", "existed": "Tecs::Entity::Existed", "hasA": "Tecs::Entity::Has", "hasAB": "Tecs::Entity::Has",
           "hasnone": "Tecs::Entity::Has", "hadA": "Tecs::Entity::Had", "hadBA": "Tecs::Entity::Had", "getc": "Tecs::Entity::Get<const T>",
           "getr": "Tecs::Entity::Get", "getm": "Tecs::Entity::Get", "getB": "Tecs::Entity::Get", "getA": "Tecs::Entity::Get", "prev": "Tecs::Entity::GetPrevious",
           "prevc": "Tecs::Entity::GetPrevious", "setref": "Tecs::Entity::Set(value)", "setA": "Tecs::Entity::Set", "setB": "Tecs::Entity::Set(value)",
           "setarg": "Tecs::Entity::Set(args)", "setdef": "Tecs::Entity::Set(args)", "unsetA": "Tecs::Entity::Unset", "unsetBA": "Tecs::Entity::Unset",
           "unsetAB": "Tecs::Entity::Unset", "destroy": "Tecs::Entity::Destroy", "destroym": "Tecs::Entity::Destroy", "new": "Tecs::Lock::NewEntity",
           "entities": "Tecs::Lock::Entities", "pentities": "Tecs::Lock::PreviousEntities", "entitiesA": "Tecs::Lock::EntitiesWith",
           "pentitiesA": "Tecs::Lock::PreviousEntitiesWith", "ghas": "Tecs::Lock::Has", "ghad": "Tecs::Lock::Had", "ggetc": "Tecs::Lock::Get<const T>",
           "hasC": "Tecs::Entity::Has", "hasCB": "Tecs::Entity::Has", "hadC": "Tecs::Entity::Had", "getcC": "Tecs::Entity::Get<const T>",
           "prevC": "Tecs::Entity::GetPrevious", "getC": "Tecs::Entity::Get", "setC": "Tecs::Entity::Set(value)", "unsetC": "Tecs::Entity::Unset",
           "unsetCA": "Tecs::Entity::Unset", "entitiesC": "Tecs::Lock::EntitiesWith",
           "ggetm": "Tecs::Lock::Get", "ggetr": "Tecs::Lock::Get", "gprev": "Tecs::Lock::GetPrevious", "gsetref": "Tecs::Lock::Set(value)",
           "gsetarg": "Tecs::Lock::Set(args)", "gsetdef": "Tecs::Lock::Set(args)", "gunset": "Tecs::Lock::Unset"}


def free(t):
    """built from unknown initial values only: both outcomes of a comparison the facts leave open are possible"""
    if isinstance(t, int) or t is ZERO:
        return True
    if t.op == "lin":
        return all(free(x) for x, _ in t.a[1])
    return t.op in ("init", "sel", "size", "N", "K")


def new_gen(g):
    """a first generation: 1, with the identifier of the instance"""
    from .bits import gen_spec
    return gen_spec(g, 0, 1)


def scenario(item):
    op, var, cfg = item
    rec = base.Rec()
    Op(base._progs[("ops", cfg, ())], rec, op, var).run()
    return rec


CONFIGS = ("checked", "unchecked", "other", "wide")
ASSUME = ["a listed entity's recorded list position is within the list, a free slot is within the tables (established by C18, C20, C22)",
          "component types are copied and reset by value (user-defined copy operations are outside the repository)"]
EXPLAIN = {p: "Every operation through every kind of lock (direct, converted, read-only view, nested permission lists), with and without run-time "
              "checks, from an arbitrary state: result, exceptions, flags and the state after it at a generic index of every table are compared with a "
              "reference semantics." for p in PIDS}


def collect(thorough, note):
    cfgs = CONFIGS + (("cxx17", "header", "tracing", "other-unchecked") if thorough else ())
    items = []
    for c in cfgs:
        try:
            base.export("ops", c)
        except base.Broken as e:
            if c == "checked":
                raise
            note("configuration", c, str(e))
            continue
        items += [(op, var, c) for op, var in (wide_cases() if c == "wide" else cases())]
    recs = base.pmap(scenario, items)
    alike(items, recs)
    return recs


def alike(items, recs):
    """C32 compares configurations: what is wrong in the same way with run-time checks on is not reported for C32"""
    with_checks = {}
    for it, r in zip(items, recs):
        if it[2] == "checked":
            with_checks[it[:2]] = {plain(x[4], it[2]) for x in r.items if x[2] == "v"}
    for it, r in zip(items, recs):
        if "unchecked" in it[2]:
            known = with_checks.get(it[:2], set())
            keep = []
            for x in r.items:
                if x[0] == "C32" and x[2] == "v" and plain(x[4], it[2]) in known:
                    r.ok("C32", x[1])
                else:
                    keep.append(x)
            r.items = keep


def plain(what, cfg):
    return what.replace(" (without checks)", "").replace(cfg, "")
