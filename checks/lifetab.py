"""Scenario tables shared by tools/gen_life.py and checks/life.py."""
LK = "Write<A>, Read<B>"
DERIVE = {  # name -> (permissions of the transaction, expression deriving a lock from l)
    "same": (LK, "l"),
    "copy": (LK, "Lock<W, Write<A>, Read<B>>(l)"),
    "narrow": (LK, "Lock<W, Read<A>>(l)"),
    "empty": (LK, "Lock<W>(l)"),
    "subset": (LK, "l.template Subset<Read<A>>()"),
    "subset_w": (LK, "l.template Subset<Write<A>>()"),
    "readonly": (LK, "l.ReadOnlySubset()"),
    "readonly2": ("AddRemove", "l.ReadOnlySubset()"),
    "dynamic": (LK, "DynamicLock<W, Read<A>>(l)"),
    "dynamic_e": ("AddRemove", "DynamicLock<W>(l)"),
    "try_static": (LK, "*DynamicLock<W, Read<A>>(l).template TryLock<Read<A>>()"),
    "try_dynamic": (LK, "*DynamicLock<W>(l).template TryLock<Write<A>>()"),
    "try_opt": (LK, "DynamicLock<W>(l).template TryLock<Write<A>>()"),
    "try_chain": ("AddRemove", "*DynamicLock<W>(DynamicLock<W, Read<A>>(l)).template TryLock<Read<A>>()"),
    "chain": ("AddRemove", "Lock<W, Read<A>>(l.template Subset<Write<A>>()).template Subset<>()"),
    "nested": (LK, "Lock<W, Lock<W, Read<A>>, Read<B>>(l)"),
    "ro_of_dyn": (LK, "DynamicLock<W, Read<A>>(l).ReadOnlySubset()"),
}
OBSP = "Observer<W, EntityEvent> &ob, EntityEvent &ev"
INSIDE = {  # operations that take a lock, by value or by reference, end nothing
    "poll": ("Read<A>", "ob.Poll(l, ev);"),
    "stop": ("AddRemove", "ob.Stop(l);"),
    "stopw": ("AddRemove", "l.StopWatching(ob);"),
    "watch": ("AddRemove", "auto o = l.template Watch<EntityEvent>();"),
    "new": ("AddRemove", "l.NewEntity();"),
    "destroy": ("AddRemove", "e.Destroy(l);"),
    "set": (LK, "e.Set<A>(l, a);"),
    "get": (LK, "e.Get<A>(l);"),
    "unset": ("AddRemove", "e.Unset<A>(l);"),
    "exists": ("Read<A>", "e.Exists(l); e.Existed(l); e.Has<A>(l); e.Had<A>(l);"),
    "gset": ("Write<G>", "l.template Set<G>(g);"),
    "gunset": ("AddRemove", "l.template Unset<G>();"),
    "list": ("AddRemove", "l.Entities(); l.PreviousEntities(); l.template EntitiesWith<A>(); l.template PreviousEntitiesWith<A>();"),
}
EVENTS = ("EntityEvent", "ComponentEvent<A>", "ComponentEvent<B>", "ComponentEvent<G>")

MAXACTIVE = 3
DEPTH = 6


def sequences(depth=DEPTH, names="wxyz"):
    """All maximal sequences of starts (+) and ends (-) on the named instances, up to renaming of instances, with at most two
    refusals; the model decides what is active."""
    res = []

    def go(seq, active, used, refused):
        if len(seq) == depth:
            res.append(list(seq))
            return
        opts = []
        for i, c in enumerate(names):
            if i > used:
                break
            ref = c in active or len(active) == MAXACTIVE
            if ref and refused >= 1:
                continue
            opts.append(("+" + c, active if ref else active | {c}, max(used, i + 1), refused + ref))
        for c in sorted(active):
            opts.append(("-" + c, active - {c}, used, refused))
        for o, a, u, r in opts:
            go(seq + [o], a, u, r)

    go([], frozenset(), 0, 0)
    return res


if __name__ == "__main__":
    print(len(sequences()), len(sequences(6)), len(sequences(5)))
