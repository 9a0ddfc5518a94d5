"""The ECS instance as the abstract interpreter sees it: layout, abstract locks, access discipline, observational equality."""
from engine.scenario import *
from engine.models import Models
from engine.absint import BOOLT, ATOMB, Undecided, Interp
from . import base

COMPS = ("A", "B", "G", "C")
GLOBAL = (2,)
ENT = (0, 1, 3)


def ncomp(prog):
    """component types of the instance the driver uses: 0, 1, 2, and in the wide configuration one more"""
    return 4 if "/wide" in prog.name else 3


ECS = ("ecs",)
PRIMS = ("ReadLock", "ReadUnlock", "WriteLock", "CommitLock", "CommitUnlock", "WriteUnlock")
MAXIDX = 2**32 - 1

R0 = mk("init", ECS)
NW, NR = mk("N", "write"), mk("N", "read")
ATOMB[NW] = (0, MAXIDX)
ATOMB[NR] = (0, MAXIDX)


def sel(v, *path):
    for a in path:
        v = mk("sel", v, a)
    return v


META = sel(R0, "metadata")


def table(k):
    return META if k == "m" else sel(sel(R0, "indexes"), k)


def tpath(k):
    return ("metadata",) if k == "m" else ("indexes", k)


def init_sizes():
    """entity table, component tables and their index tables have one size per side"""
    d = {}
    for k in ("m",) + ENT:
        t = table(k)
        d[sel(t, "writeComponents")] = NW
        d[sel(t, "validEntityIndexes")] = NW
        d[sel(t, "readComponents")] = NR
    for g in GLOBAL:
        for f in ("writeComponents", "readComponents"):
            a = mk("size", sel(table(g), f))
            ATOMB[a] = (0, 1)
            d[sel(table(g), f)] = a
    return d


SIZES = init_sizes()
LISTS = ("readValidEntities", "writeValidEntities")
for _k in ("m",) + ENT:
    for _f in LISTS:
        ATOMB[mk("size", sel(table(_k), _f))] = (0, MAXIDX)


def locate(path):
    """path below the instance -> (table or None, field, rest)"""
    if not path:
        return None, None, ()
    if path[0] == "metadata":
        return "m", path[1] if len(path) > 1 else None, path[2:]
    if path[0] == "indexes":
        if len(path) > 1:
            return path[1], path[2] if len(path) > 2 else None, path[3:]
        return None, "indexes", ()
    return None, path[0], path[1:]


def lockname(which):
    return "entity set" if which == "m" else "component " + (COMPS[which] if isinstance(which, int) and which < 4 else str(which))


def mterm(t):
    BOOLT.add(t)
    ATOMB[t] = (0, 1)
    return t


FLAGS = mk("init", ("flags",))


def flag(k):
    """access flag bit: 0 = structural, 1+k = component k"""
    return mterm(sel(FLAGS, ("b", k)))


class World:
    """A scenario runner with abstract locks. rec: base.Rec; held locks live in the path state, so they are part of every fixpoint."""

    def __init__(self, prog, rec, scenario, on_mark=None, rules=True, setup=None, model=None):
        self.rec, self.scenario, self.prog = rec, scenario, prog
        self.n = ncomp(prog)
        self.ent = ENT[:self.n - 1]
        self.rules = rules
        self.user_mark = on_mark
        self.user_setup = setup
        self.R = Runner(prog, setup=self.setup, model=model, on_mark=self.mark, call_hook=self.call, access_hook=self.access,
                        size_hook=self.size)
        self.I = self.R.I
        self.prims_seen = set()
        self.try_lock = True

    # ----- state -----
    def setup(self, R):
        I = R.I
        I.mem[("G", "Tecs::activeTransactionsCount")] = 0
        I.mem[ECS] = R0
        lists = []
        for i in range(1 + self.n):
            q = mk("init", ("Q", i))
            I.mem[("Q", i)] = q
            ATOMB[mk("size", q)] = (0, 2**40)
            I.poke(ref(ECS, ("eventLists", i, "writeQueue")), ref(("Q", i)))
        if self.user_setup:
            self.user_setup(self)

    def size(self, v):
        return SIZES.get(v)

    def held(self, k):
        return self.I.mon.get(("lk", k))

    def heldset(self):
        return {k[1]: v for k, v in self.I.mon.items() if isinstance(k, tuple) and k[0] == "lk" and v}

    def where(self):
        return self.I.where()

    def trail(self):
        return ["scenario " + self.scenario] + [self.I.p.fns[f.fid]["q"] + " called at " + self.I.p.loc(f.loc) for f in self.I.frames] + \
            ["holding " + (", ".join(f"{lockname(k)}:{v}" for k, v in self.heldset().items()) or "nothing")]

    def req(self, pid, cond, rule, what):
        self.rec.require(pid, cond, rule, self.where(), what, self.trail)

    # ----- hooks -----
    def mark(self, R, name):
        if self.user_mark:
            self.user_mark(self, name)

    def which(self, this):
        if isT(this, "ref") and this.a[0] == ECS:
            p = this.a[1]
            if p == ("metadata",):
                return "m"
            if len(p) == 2 and p[0] == "indexes":
                return p[1]
        raise Undecided("lock operation on an unknown object at " + self.where())

    def call(self, fid, fn, this, args, dest):
        n = fn["n"]
        if fn["q"] == "Tecs::TraceInfo::Trace" or n == "Trace" and "TraceInfo" in fn["q"]:
            return (VOID,)
        if n in PRIMS and fn["q"].startswith("Tecs::ComponentIndex"):
            self.prims_seen.add(n)
            return (self.prim(n, self.which(this), args),)
        return None

    def prim(self, n, k, args):
        I = self.I
        mode = self.held(k)
        r = self.rules
        I.event("prim", n, k)
        if n in ("ReadLock", "WriteLock"):
            block = I.truth(args[0]) if args else True
            if r:
                self.req("C08", mode is None, "one-mode-each", f"{n} of the {lockname(k)} which the transaction already holds ({mode})")
                if block:
                    hs = self.heldset()
                    self.req("C07", not hs, "block-only-empty-handed",
                             f"may wait for the {lockname(k)} while holding " + ", ".join(lockname(x) for x in hs))
            if not block and I.choose(2):
                return 0
            I.mon[("lk", k)] = "R" if n == "ReadLock" else "W"
            return 1
        if n == "ReadUnlock":
            if r:
                self.req("C08", mode == "R", "release-matches", f"ReadUnlock of the {lockname(k)} held as {mode}")
            I.mon.pop(("lk", k), None)
            self.unlocked(k)
            return VOID
        if n == "WriteUnlock":
            if r:
                self.req("C08", mode in ("W", "C"), "release-matches", f"WriteUnlock of the {lockname(k)} held as {mode}")
            self.before_write_unlock(k)
            I.mon.pop(("lk", k), None)
            self.unlocked(k)
            return VOID
        if n == "CommitLock":
            if r:
                self.req("C08", mode == "W", "release-matches", f"CommitLock of the {lockname(k)} held as {mode}")
                rd = [x for x, m in self.heldset().items() if m == "R" and x != "m"]
                self.req("C09", not rd, "no-read-access-while-waiting",
                         f"waits for readers of the {lockname(k)} while still holding read access to " + ", ".join(map(lockname, rd)))
                self.req("C11", not I.mon.get("pub"), "lock-all-then-publish",
                         f"commit lock of the {lockname(k)} is taken after publishing started")
                self.req("C11", not I.mon.get("unl"), "lock-all-then-publish",
                         f"commit lock of the {lockname(k)} is taken after a commit lock was already released")
            I.mon[("lk", k)] = "C"
            I.mon[("cm", k)] = 1
            return VOID
        if n == "CommitUnlock":
            if r:
                self.req("C08", mode == "C", "release-matches", f"CommitUnlock of the {lockname(k)} held as {mode}")
            I.mon[("lk", k)] = "W"
            I.mon["unl"] = 1
            return VOID

    def before_write_unlock(self, k):
        pass

    def unlocked(self, k):
        pass

    # ----- access discipline (C10) -----
    def need(self, cond, what, kind, pubok=True):
        if cond:
            self.rec.ok("C10", "access-held")
        else:
            self.rec.violation("C10", "access-held", self.where(), what, self.trail())

    # ----- writes to memory that other threads may use (C39) -----
    FIELDS = ("readComponents", "writeComponents", "readValidEntities", "writeValidEntities", "validEntityIndexes", "readers", "writer", "metadata",
              "globalReadMetadata", "globalWriteMetadata", "freeEntities", "eventLists", "indexes")

    def effects(self, root, path):
        I = self.I
        a = I.atomic_now
        if root[0] in ("L", "T", "D", "spec") or isT(a, "ref") and a.a[0] == root and path[:len(a.a[1])] == a.a[1]:
            return
        query = I.mon.get("query")
        what = None
        if root[0] == "G":
            g = self.globals().get(root[2] if len(root) > 2 else root[1])
            if g and g.get("tls"):
                return
            what = f"process-wide variable {root[1]}"
        elif root == ECS:
            k, f, rest = locate(path)
            if f is not None and f not in self.FIELDS:
                own = self.held(k) if k is not None else self.held("m")
                if own not in ("W", "C") and self.held("m") not in ("W", "C"):
                    what = f"{f} of the {'instance' if k is None else lockname(k)}, which no lock held protects,"
            if query:
                what = what or f"{f} of the {'instance' if k is None else lockname(k)}"
        elif query and root[0] == "H" and root in query[1]:
            what = "data of the transaction"
        elif query and root[0] in ("Q", "P", "in"):
            what = "data handed in" if root[0] == "in" else "an event queue"
        self.rec.require("C39", what is None, "query-writes-nothing" if query else "no-hidden-state", self.where(),
                         f"{what} is written{' by a query' if query else ' without synchronisation'}", self.trail)

    def globals(self):
        if not hasattr(self.prog, "gl"):
            self.prog.gl = {**{g.get("n"): g for i, g in self.prog.globals.items()}, **{int(i): g for i, g in self.prog.globals.items()}}
        return self.prog.gl

    def access(self, kind, root, path):
        if kind == "w":
            self.effects(root, path)
        if not self.rules:
            return
        if root == ECS:
            k, f, rest = locate(path)
        elif root[0] == "Q":
            k, f, rest = None, "queue", ()
        elif root[0] == "P" and "observers" in str(root[1]):
            k, f, rest = None, "observer", ()
        else:
            return
        h = self.held
        w = kind == "w"
        verb = "written" if w else "read"
        if f in (None, "readers", "writer", "traceInfo", "transactionTrace", "ecsId", "indexes"):
            return
        m = h("m")
        if k is not None:
            t = "entity set" if k == "m" else "component " + COMPS[k]
            own = h(k)
            if f == "readComponents":
                self.need(own == "C" if w else own is not None, f"committed data of the {t} {verb} while holding {own}", kind)
            elif f == "readValidEntities":
                if k == "m":
                    self.need(own == "C" if w else own is not None, f"committed entity list {verb} while holding {own}", kind)
                else:
                    self.need(own == "C" and m == "C" if w else own is not None or m is not None,
                              f"committed list of {t} {verb} while holding {own} (entity set {m})", kind)
            elif f in ("writeComponents", "writeValidEntities", "validEntityIndexes"):
                if f == "writeComponents" or k == "m":
                    self.need(own in ("W", "C"), f"working data ({f}) of the {t} {verb} while holding {own}", kind)
                else:
                    self.need(m in ("W", "C") and (not w or own in ("W", "C")),
                              f"working list ({f}) of {t} {verb} while holding {own} (entity set {m})", kind)
            else:
                return
            if w and f in ("readComponents", "readValidEntities"):
                ok = own == "C" and (f == "readComponents" or m == "C")
                self.req("C11", ok, "published-under-commit-lock",
                         f"committed {'list' if f != 'readComponents' else 'data'} of the {t} changes while readers are not locked out "
                         f"(held: {own}, entity set {m})")
                self.published(k, f)
        else:
            if f == "globalReadMetadata":
                self.need(m == "C" if w else m is not None, f"committed global metadata {verb} while holding {m}", kind)
                if w:
                    self.req("C11", m == "C", "published-under-commit-lock", f"committed global metadata changes while holding {m}")
                    self.published("m", f)
            elif f in ("globalWriteMetadata", "freeEntities"):
                self.need(m in ("W", "C"), f"{f} {verb} while holding entity set {m}", kind)
            elif f in ("eventLists", "queue"):
                self.need(m in ("W", "C"), f"event lists {verb} while holding entity set {m}", kind)
            elif f == "observer":
                self.need(m == "C" if w else m is not None, f"an observer's queue is {verb} while holding entity set {m}", kind)

    def published(self, k, f):
        self.I.mon["pub"] = 1


# ----- values -----
def getp(mem, path, root=ECS):
    I = getp.I
    v = mem.get(root)
    for a in path:
        v = I.select(v, a)
    return v


def unwrap(v, size=None):
    """seq over an unmodified base is the base"""
    if isT(v, "seq") and not v.a[3] and isT(v.a[0]) and (v.a[1] == 0):
        s = SIZES.get(v.a[0]) or mk("size", v.a[0])
        if s is v.a[2]:
            return v.a[0]
    return v
