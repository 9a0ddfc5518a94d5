"""Bit provenance of integer terms: which bit of which unknown each bit of a value is."""
from engine.terms import *


def bits(t, n):
    """list of n bits, LSB first: 0, 1, (atom, bit) or None (unknown)"""
    if isinstance(t, int):
        return [(t >> i) & 1 for i in range(n)]
    if t is ZERO:
        return [0] * n
    if t.op == "bv":
        op, w, a, b = t.a
        if op in ("&", "|", "^"):
            x, y = bits(a, n), bits(b, n)
            r = []
            for p, q in zip(x, y):
                if op == "&":
                    r.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else mix(op, p, q))
                elif op == "|":
                    r.append(1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q else mix(op, p, q))
                else:
                    r.append(q if p == 0 else p if q == 0 else 0 if p == q and p is not None else mix(op, p, q))
            return r
        if op == "<<" and isinstance(b, int):
            x = bits(a, max(n - b, 0))
            r = ([0] * b + x)[:n]
            return [v if i < w else 0 for i, v in enumerate(r)]
        if op == ">>" and isinstance(b, int):
            x = bits(a, w)
            return [x[i + b] if i + b < w else 0 for i in range(n)]
        if op == "~":
            return [None] * n
    if t.op == "trunc":
        w = t.a[0]
        return [v if i < w else 0 for i, v in enumerate(bits(t.a[1], n))]
    if t.op == "wadd":
        w = t.a[0]
        b = summands(t.a[1], n)
        if b:
            return [v if i < w else 0 for i, v in enumerate(b)]
        c = canon(t.a[1], w)
        return [(c, i) if i < w else 0 for i in range(n)]
    if t.op == "lin":
        return summands(t, n) or [(canon(t, n), i) for i in range(n)]
    w = width(t)
    return [(t, i) if w is None or i < w else 0 for i in range(n)]


def mix(op, p, q):
    """a bit computed from two different unknown bits"""
    if isinstance(p, tuple) and isinstance(q, tuple):
        return (mk("mix", op, p, q), 0)


def summands(t, n):
    """a sum whose parts occupy different bits: no carries"""
    if not isT(t, "lin"):
        return None
    c, d = lin_parts(t)
    if c < 0 or any(k <= 0 or k & (k - 1) for k in d.values()):
        return None
    parts = [bits(c, n)] if c else []
    for a, k in d.items():
        s = k.bit_length() - 1
        parts.append(([0] * s + bits(a, max(n - s, 0)))[:n])
    if len(parts) == 1:
        return parts[0]
    r = []
    for col in zip(*parts):
        nz = [b for b in col if b != 0]
        if len(nz) > 1:
            return None
        r.append(nz[0] if nz else 0)
    return r


def width(t):
    """number of bits an unsigned unknown can have, if bounded"""
    from engine.absint import ATOMB
    b = ATOMB.get(t)
    if b and b[0] is not None and b[0] >= 0 and b[1] is not None:
        return b[1].bit_length()


def canon(t, w):
    """sum whose low bits matter: masks that keep the low bits are dropped per bit in low()"""
    return t


def low(t, n):
    """canonical form of t modulo 2**n: strips masks and truncations that keep the low n bits"""
    m = 2**n
    if isinstance(t, int):
        return t % m
    if t is ZERO:
        return 0
    if t.op == "bv" and t.a[0] == "&" and isinstance(t.a[3], int) and t.a[3] % m == m - 1:
        return low(t.a[2], n)
    if t.op in ("trunc", "wadd") and t.a[0] >= n:
        return low(t.a[1], n)
    if t.op in ("u64", "s64"):
        return low(t.a[0], n)
    if t.op == "lin":
        c, d = lin_parts(t)
        r = c
        for a, k in d.items():
            r = lin_add(r, lin_scale(low(a, n), k))
        if isinstance(r, int):
            return r % m
        c, d = lin_parts(r)
        return lin_make(c % m, {a: k % m for a, k in d.items()})
    return t


def gen_spec(g, old, inc):
    """g == ((old + inc) mod 2^24) | identifier << 24, with identifier taken from the instance"""
    b = bits(g, 32)
    want = low(lin_add(old, inc), 24)
    for i in range(24):
        x = b[i]
        if isinstance(want, int):
            if x != (want >> i) & 1:
                return False, f"bit {i} is {show(x) if isT(x) else x}"
            continue
        if not isinstance(x, tuple) or x[1] != i or low(x[0], 24) is not want:
            return False, f"bit {i} is {show(x[0]) + '.' + str(x[1]) if isinstance(x, tuple) else x}, not of the generation plus {inc}"
    eid = mk("sel", mk("init", ("ecs",)), "ecsId")
    for i in range(24, 32):
        x = b[i]
        if not isinstance(x, tuple) or x[1] != i - 24 or low(x[0], 8) is not eid:
            return False, f"bit {i} is {show(x[0]) + '.' + str(x[1]) if isinstance(x, tuple) else x}, not of the instance's identifier"
    return True, ""
