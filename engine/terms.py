"""Interned terms, linear integer forms and the fact base (congruence-free atoms + linear inequalities)."""
from fractions import Fraction

_tab = {}
_n = 0


class T:
    __slots__ = ("op", "a", "id", "d", "_at")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < (o.id if isinstance(o, T) else -1)


def mk(op, *a):
    k = (op,) + a
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.a, t.id, t.d, t._at = op, a, len(_tab), None, None
        _tab[k] = t
    return t


ZERO = mk("zero")
UNINIT = mk("uninit")
EMPTY = mk("empty")
NULL = mk("null")
VOID = mk("void")


def isT(x, op=None):
    return isinstance(x, T) and (op is None or x.op == op)


# ---- objects ----
def obj(base, d):
    t = mk("obj", base, tuple(sorted(d.items(), key=lambda kv: repr_key(kv[0]))))
    if t.d is None:
        t.d = dict(d)
    return t


def repr_key(k):
    if isinstance(k, str):
        return (0, k)
    if isinstance(k, int):
        return (1, k)
    if isinstance(k, tuple):
        return (2,) + tuple(str(x) for x in k)
    return (3, str(k))


def ref(root, path=()):
    return mk("ref", root, tuple(path))


def seq(base, start, end, ops=()):
    return mk("seq", base, start, end, tuple(ops))


# ---- linear forms ----
def lin_parts(x):
    """-> (const, {atom: coef})"""
    if isinstance(x, int):
        return int(x), {}
    if x.op == "lin":
        return x.a[0], dict(x.a[1])
    if x is ZERO:
        return 0, {}
    return 0, {x: 1}


def lin_make(c, d):
    items = tuple(sorted(((a, k) for a, k in d.items() if k != 0), key=lambda p: p[0].id))
    if not items:
        return c
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return mk("lin", c, items)


def lin_add(x, y, s=1):
    c1, d1 = lin_parts(x)
    c2, d2 = lin_parts(y)
    for a, k in d2.items():
        d1[a] = d1.get(a, 0) + s * k
    return lin_make(c1 + s * c2, d1)


def lin_scale(x, n):
    c, d = lin_parts(x)
    return lin_make(c * n, {a: k * n for a, k in d.items()})


def le0(l):
    """term for l <= 0"""
    if isinstance(l, int):
        return 1 if l <= 0 else 0
    return mk("le0", l)


def tlt(a, b):
    return le0(lin_add(lin_add(a, b, -1), 1))


def tle(a, b):
    return le0(lin_add(a, b, -1))


def teq(a, b):
    if a is b or (isinstance(a, int) and isinstance(b, int) and a == b):
        return 1
    if isinstance(a, int) and isinstance(b, int):
        return 0
    if isT(a) and a is ZERO and isinstance(b, int):
        return 1 if b == 0 else 0
    if isT(b) and b is ZERO and isinstance(a, int):
        return 1 if a == 0 else 0
    ka, kb = (0, a) if isinstance(a, int) else (1, a.id), (0, b) if isinstance(b, int) else (1, b.id)
    if kb < ka:
        a, b = b, a
    return mk("eq", a, b)


def tnot(t):
    if isinstance(t, int):
        return 0 if t else 1
    if t.op == "not":
        return t.a[0]
    if t.op == "le0":
        return le0(lin_add(lin_scale(t.a[0], -1), 1))
    return mk("not", t)


def atoms_of(x):
    if isinstance(x, int):
        return ()
    if x.op == "lin":
        return tuple(a for a, _ in x.a[1])
    return (x,)


class Infeasible(Exception):
    pass


INTLIKE = {"init", "sel", "size", "fresh", "ind", "lv", "lvout", "wadd", "and", "or", "xor", "shl", "shr", "trunc", "ext",
           "load", "uf", "lin", "wid", "param", "N"}


class Facts:
    """Path facts. atoms: opaque boolean term -> bool; eqc: linear atom known equal to a term; lins: list of l<=0."""

    def __init__(self, bounds=None):
        self.atoms = {}
        self.lins = ()
        self.nes = ()  # lins known != 0
        self.bounds = bounds or (lambda a: (None, None))
        self.cache = {}

    def copy(self):
        f = Facts(self.bounds)
        f.atoms = dict(self.atoms)
        f.lins = self.lins
        f.nes = self.nes
        return f

    def key(self):
        return (frozenset(self.atoms.items()), frozenset(self.lins), frozenset(self.nes))

    # --- linear ---
    def _infeasible(self, extra):
        """Is lins + extra + bounds infeasible (over rationals, with integer tightening of constants)?"""
        rel = set()
        cons = []
        for l in extra:
            rel.update(atoms_of(l))
        pool = list(self.lins)
        changed = True
        chosen = []
        while changed:
            changed = False
            rest = []
            for l in pool:
                if any(a in rel for a in atoms_of(l)):
                    chosen.append(l)
                    rel.update(atoms_of(l))
                    changed = True
                else:
                    rest.append(l)
            pool = rest
        for l in list(extra) + chosen:
            c, d = lin_parts(l)
            cons.append((c, d))
        for a in rel:
            lo, hi = self.bounds(a)
            if lo is not None:
                cons.append((lo, {a: -1}))
            if hi is not None:
                cons.append((-hi, {a: 1}))
        return fm_infeasible(cons)

    def decide_le0(self, l):
        if isinstance(l, int):
            return l <= 0
        k = ("le", l)
        if k in self.cache:
            return self.cache[k]
        r = None
        if l in self.lins:
            r = True
        elif self._infeasible([lin_add(lin_scale(l, -1), 1)]):
            r = True
        elif self._infeasible([l]):
            r = False
        self.cache[k] = r
        return r

    def decide_eq0(self, l):
        if isinstance(l, int):
            return l == 0
        a = self.decide_le0(l)
        b = self.decide_le0(lin_scale(l, -1))
        if a is False or b is False:
            return False
        if a and b:
            return True
        if l in self.nes or lin_scale(l, -1) in self.nes:
            return False
        return None

    # --- generic boolean terms ---
    def decide(self, t):
        if isinstance(t, int):
            return bool(t)
        if t is ZERO:
            return False
        if t.op == "not":
            r = self.decide(t.a[0])
            return None if r is None else not r
        if t.op == "le0":
            return self.decide_le0(t.a[0])
        if t.op == "eq":
            return self.decide_eq(t.a[0], t.a[1])
        if t.op == "and":
            a, b = self.decide(t.a[0]), self.decide(t.a[1])
            if a is False or b is False:
                return False
            return True if a and b else None
        if t.op == "or":
            a, b = self.decide(t.a[0]), self.decide(t.a[1])
            if a or b:
                return True
            return False if a is False and b is False else None
        return self.atoms.get(t)

    def decide_eq(self, a, b):
        e = teq(a, b)
        if isinstance(e, int):
            return bool(e)
        r = self.atoms.get(e)
        if r is not None:
            return r
        if linear(a) and linear(b):
            return self.decide_eq0(lin_add(a, b, -1))
        return None

    def assume(self, t, val=True):
        if isinstance(t, int):
            if bool(t) != val:
                raise Infeasible()
            return
        if t is ZERO:
            if val:
                raise Infeasible()
            return
        if t.op == "not":
            return self.assume(t.a[0], not val)
        cur = self.decide(t)
        if cur is not None:
            if cur != val:
                raise Infeasible()
            return
        self.cache = {}
        if t.op == "le0":
            l = t.a[0]
            if not val:
                l = lin_add(lin_scale(l, -1), 1)
            self._addlin(l)
            return
        if t.op == "eq":
            a, b = t.a
            self.atoms[t] = val
            if linear(a) and linear(b):
                d = lin_add(a, b, -1)
                if val:
                    self._addlin(d)
                    self._addlin(lin_scale(d, -1))
                else:
                    self.nes = self.nes + (d,)
                    for l in (d, lin_scale(d, -1)):
                        # tighten at an end point
                        if self.decide_le0(l):
                            self._addlin(lin_add(l, 1))
            return
        if t.op == "and" and val:
            self.assume(t.a[0], True)
            self.assume(t.a[1], True)
            return
        if t.op == "or" and not val:
            self.assume(t.a[0], False)
            self.assume(t.a[1], False)
            return
        self.atoms[t] = val

    def _addlin(self, l):
        if isinstance(l, int):
            if l > 0:
                raise Infeasible()
            return
        if l in self.lins:
            return
        self.lins = self.lins + (l,)
        self.cache = {}
        for d in self.nes:
            for s in (d, lin_scale(d, -1)):
                if not isinstance(s, int) and set(atoms_of(s)) & set(atoms_of(l)):
                    if self.decide_le0(s) and lin_add(s, 1) not in self.lins:
                        self.lins = self.lins + (lin_add(s, 1),)
                        self.cache = {}
        if self._infeasible([l]):
            raise Infeasible()


def linear(x):
    if isinstance(x, int):
        return True
    return x.op not in ("obj", "seq", "ref", "null", "empty", "uninit", "void", "str", "closure", "it")


def fm_infeasible(cons, limit=400):
    """cons: list of (c, {atom:k}) meaning c + sum k*a <= 0."""
    cs = []
    seen = set()
    for c, d in cons:
        d = {a: k for a, k in d.items() if k}
        if not d:
            if c > 0:
                return True
            continue
        key = (c, frozenset(d.items()))
        if key not in seen:
            seen.add(key)
            cs.append((c, d))
    while True:
        if not cs:
            return False
        cnt = {}
        for c, d in cs:
            for a, k in d.items():
                p = cnt.setdefault(a, [0, 0])
                p[0 if k > 0 else 1] += 1
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x.id))
        pos = [x for x in cs if x[1].get(a, 0) > 0]
        neg = [x for x in cs if x[1].get(a, 0) < 0]
        rest = [x for x in cs if not x[1].get(a, 0)]
        seen = set((c, frozenset(d.items())) for c, d in rest)
        for c1, d1 in pos:
            k1 = d1[a]
            for c2, d2 in neg:
                k2 = -d2[a]
                d = {}
                for x, k in d1.items():
                    if x is not a:
                        d[x] = k * k2
                for x, k in d2.items():
                    if x is not a:
                        d[x] = d.get(x, 0) + k * k1
                c = c1 * k2 + c2 * k1
                d = {x: k for x, k in d.items() if k}
                if not d:
                    if c > 0:
                        return True
                    continue
                g = 0
                for k in d.values():
                    g = _gcd(g, abs(k))
                if g > 1:
                    d = {x: k // g for x, k in d.items()}
                    c = -((-c) // g)  # integer tightening: ceil(c/g)
                key = (c, frozenset(d.items()))
                if key not in seen:
                    seen.add(key)
                    rest.append((c, d))
        if len(rest) > limit:
            return False
        cs = rest


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def show(t, depth=0):
    if isinstance(t, int):
        return str(t)
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth) for x in t) + ")"
        return str(t)
    if depth > 7:
        return "…"
    op, a = t.op, t.a
    s = lambda x: show(x, depth + 1)
    if op == "init":
        return str(a[0]) if not isinstance(a[0], tuple) else "·".join(map(str, a[0]))
    if op == "sel":
        b, acc = a
        if isinstance(acc, tuple) and acc and acc[0] == "i":
            return f"{s(b)}[{s(acc[1])}]"
        if isinstance(acc, tuple) and acc and acc[0] == "b":
            return f"{s(b)}.bit{acc[1]}"
        return f"{s(b)}.{acc}"
    if op == "lin":
        parts = []
        for x, k in a[1]:
            parts.append(("" if k == 1 else f"{k}*") + s(x))
        if a[0]:
            parts.append(str(a[0]))
        return "(" + "+".join(parts) + ")"
    if op == "le0":
        return f"({s(a[0])} <= 0)"
    if op == "eq":
        return f"({s(a[0])} == {s(a[1])})"
    if op == "not":
        return f"!{s(a[0])}"
    if op == "size":
        return f"size({s(a[0])})"
    if op == "obj":
        return "{" + (s(a[0]) if a[0] not in (UNINIT,) else "") + "".join(
            f" {k if not isinstance(k, tuple) else ''.join(map(str, k))}={s(v)}" for k, v in a[1]) + "}"
    if op == "seq":
        return f"<{s(a[0])}[{s(a[1])}..{s(a[2])})" + "".join(" " + show(o, depth + 1) for o in a[3]) + ">"
    if op == "ref":
        return "&" + str(a[0]) + "".join("." + show(x, depth + 1) for x in a[1])
    if op in ("zero", "uninit", "null", "empty", "void"):
        return op
    return f"{op}(" + ",".join(show(x, depth + 1) for x in a) + ")"
