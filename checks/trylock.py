"""Run-time lock requests (C16): DynamicLock::TryLock() is interpreted abstractly for every pair of permission lists.
The outcome of a request has to be the same on every path and equal to the specification; a lock it returns refers to the
same transaction and carries no permission the transaction does not have."""
import re
from engine.terms import *
from engine.absint import Undecided
from . import base
from .world import World
from .types import PERMS, SMALL, plist, can, subset

COMPS = ("A", "B", "G")
# instances with many component types: number of types -> positions of A, B and G among them
MANY = {40: {"A": 30, "B": 31, "G": 39}, 63: {"A": 31, "B": 0, "G": 62}, 64: {"A": 62, "B": 0, "G": 63}, 70: {"A": 63, "B": 64, "G": 69}}
MANYREQ = (0, 2, 3, 4, 5, 6, 8, 9, 10, 11, 12, 13, 18, 20)


def bits_of(p):
    r, w, ar = can(p)
    return [ar] + [k in w for k in COMPS]


def parts(I, v):
    """permission bits, transaction and instance of an observed lock, or None for what is not recognised"""
    def get(v, n):
        return dict(v.a[1]).get(n) if isT(v, "obj") else None

    pm = get(v, "permissions")
    bs = None
    if pm is not None:
        bs = [get(pm, ("b", k)) for k in range(1 + len(COMPS))]
        if isT(pm, "obj"):
            bs = [0 if b is None and pm.a[0] in (ZERO, EMPTY) else b for b in bs]
        elif pm is ZERO or pm is EMPTY:
            bs = [0] * (1 + len(COMPS))
        bs = None if any(isT(b) or b is None for b in bs) else [int(b) for b in bs]
    return bs, get(v, "base"), get(v, "instance")


def scenario(prog, name):
    rec = base.Rec()
    m = re.match(r"tl_(\w+?)_(\d+)(?:_(\d+))?$", name)
    kind, p = m.group(1), PERMS[int(m.group(2))]
    via = SMALL[int(m.group(3))] if m.group(3) else None
    src = f"transaction <{plist(p)}>" + (f" via <{plist(via)}>" if via is not None else " via ReadOnlySubset()" if kind == "view" else "")
    fn = "Tecs::DynamicLock::TryLock"
    try:
        w = World(prog, base.Rec(), name, rules=False)
        paths = w.R.run(name)
    except Undecided as e:
        rec.undecided("C16", "try-lock", fn, f"{src}: {e}")
        return rec
    got, txbits = {}, bits_of(p)
    for x in paths:
        txb = None
        started = False
        for e in x.events:
            if e[0] == "mark" and e[1] == "started":
                started = True
            if e[0] != "observe":
                continue
            v = e[2][0][1]
            if e[1] == "tx":
                txb = v
                bs, b, i = parts(w.I, v)
                want = txbits
                if bs is None:
                    rec.undecided("C16", "lock-permissions", fn, src + ": permission bits not recognised")
                elif kind == "view":
                    rec.require("C16", not any(bs), "lock-permissions", "Tecs::Lock::ReadOnlySubset", f"{src}: the view keeps write permissions {[int(z) for z in bs]}")
                elif kind != "view":
                    over = [k for k in range(len(bs)) if bs[k] and not want[k]]
                    under = [k for k in range(len(bs)) if want[k] and not bs[k]]
                    rec.require("C16", not over and (not under or kind == "narrow"), "lock-permissions", "Tecs::Lock",
                                f"{src}: the lock carries permission bits {[int(z) for z in bs]}, the transaction has {[int(z) for z in want]}")
            elif e[1].startswith("got "):
                got.setdefault(int(e[1][4:]), set()).add(v)
            elif e[1].startswith("lock "):
                j = int(e[1][5:])
                bs, b, i = parts(w.I, v)
                _, b0, i0 = parts(w.I, txb) if txb is not None else (None, None, None)
                if b is None or b0 is None:
                    rec.undecided("C16", "same-transaction", fn, src)
                else:
                    rec.require("C16", b is b0 and i is i0, "same-transaction", fn, f"{src}: TryLock<{plist(PERMS[j])}> returned a lock of another transaction or instance")
                if bs is not None:
                    over = [k for k in range(len(bs)) if bs[k] and not (txbits[k] and kind != "view")]
                    rec.require("C16", not over, "lock-permissions", fn, f"{src}: TryLock<{plist(PERMS[j])}> returned a lock with permission bits {[int(z) for z in bs]}")
    for j, q in enumerate(PERMS):
        vs = got.get(j, set())
        if not vs:
            rec.undecided("C16", "try-lock", fn, f"{src}: no outcome for <{plist(q)}>")
            continue
        if kind in ("direct", "static"):
            want = subset(q, p)
        elif kind == "view":
            r, wr, ar = can(q)
            want = not wr and not ar and r <= can(p)[0]
        else:
            want = None
        for v in vs:
            if v not in (0, 1, True, False):
                rec.undecided("C16", "try-lock", fn, f"{src}: outcome of <{plist(q)}> depends on {show(v) if isT(v) else v}"[:300])
            elif want is None:
                rec.require("C16", not v or subset(q, p), "try-lock", fn, f"{src}: TryLock<{plist(q)}> is granted though the transaction does not hold it")
            else:
                rec.require("C16", bool(v) == want, "try-lock", fn, f"{src}: TryLock<{plist(q)}> is {'granted' if v else 'refused'} but must be {'granted' if want else 'refused'}")
    rec.fns |= {prog.fns[i]["q"] for i in w.I.fns_seen}
    return rec


def many(prog, name):
    """the same for an instance with n component types, from a lock with exactly the permission bits of its type"""
    rec = base.Rec()
    m = re.match(r"tm_(\d+)_(\d+)$", name)
    n, p = int(m.group(1)), PERMS[int(m.group(2))]
    at = {k: c for c, k in MANY[n].items()}
    r, w, ar = can(p)
    every = "RA" in p, "WA" in p or ar
    bits = [int(ar)] + [int(at[k] in w if k in at else every[1]) for k in range(n)]
    fn = "Tecs::DynamicLock::TryLock"
    src = f"instance with {n} component types, lock <{plist(p)}>"

    def setup(W):
        for k, b in enumerate(bits):
            W.I.poke(ref(("in", "l"), ("permissions", ("b", k))), b)
    try:
        wd = World(prog, base.Rec(), name, rules=False, setup=setup)
        paths = wd.R.run(name)
    except Undecided as e:
        rec.undecided("C16", "try-lock", fn, f"{src}: {e}")
        return rec
    for j in MANYREQ:
        q = PERMS[j]
        vs = {e[2][0][1] for x in paths for e in x.events if e[0] == "observe" and e[1] == f"got {j}"}
        want = subset(q, p)
        if not vs or any(isT(v) for v in vs):
            rec.undecided("C16", "try-lock", fn, f"{src}: outcome of <{plist(q)}> is not understood")
        else:
            for v in vs:
                rec.require("C16", bool(v) == want, "try-lock", fn, f"{src}: TryLock<{plist(q)}> is {'granted' if v else 'refused'} but must be {'granted' if want else 'refused'}")
    rec.fns |= {prog.fns[i]["q"] for i in wd.I.fns_seen}
    return rec


def _job(name):
    if name.startswith("tm_"):
        return many(base._progs[("many", "checked", ())], name)
    return scenario(base._progs[("trylock", "checked", ())], name)


def collect(rec, thorough):
    prog = base.export("trylock", "checked")
    names = [f["n"] for i, f in enumerate(prog.fns) if f and f["n"].startswith("tl_") and f.get("hasbody")]
    try:
        names += [f["n"] for f in base.export("many", "checked").fns if f and f["n"].startswith("tm_") and f.get("hasbody")]
    except base.Broken as e:
        rec.undecided("C16", "try-lock", "Tecs::DynamicLock::TryLock", "instances with many component types: " + str(e)[:300])
    for r in base.pmap(_job, names):
        for k, v in r.counts.items():
            rec.counts[k] = rec.counts.get(k, 0) + v
        rec.items += r.items
        rec.fns |= r.fns
        rec.count("request scenarios")
