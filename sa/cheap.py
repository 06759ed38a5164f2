"""Calls that work on summarised instances.

Such a call is analysed without relational facts, once per abstract shape of
its inputs: the inputs are weakened (classes, provenance, references), the
effects of the analysed run are recorded in canonical form and replayed."""
from . import heap as H
from .join import _walk_x, refs_in
from .state import CHEAP
from .values import *
from .values import V
from .weak import freshen, weaken


def map_refs(v, m):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return tuple(map_refs(e, m) for e in v)
        return v
    if not refs_in(v)[0]:
        return v
    if isinstance(v, Ref):
        return Ref(frozenset(m.get(h, h) for h in v.ids))
    return type(v)(*[map_refs(getattr(v, n), m) for n in v._fields])


def weak_obj(o, st):
    if isinstance(o, H.HSeq):
        return o.with_seq(weaken(o.seq, st))
    if isinstance(o, H.HIter):
        from .terms import ZERO

        return H.HIter(
            weaken(o.seq, st), ZERO, o.phase, o.summary, o.site
        )
    if isinstance(o, H.HDict):
        return H.HDict(
            tuple((weaken(k, st), weaken(v, st)) for k, v in o.items),
            weaken(o.sk, st),
            weaken(o.sv, st),
            o.phase, o.summary, o.site,
        )
    return H.HObj(
        o.cls,
        tuple((k, weaken(v, st)) for k, v in o.fields),
        o.phase, o.summary, o.site,
    )


def open_obj(o, ictx):
    if isinstance(o, H.HSeq):
        return o.with_seq(freshen(o.seq, ictx))
    if isinstance(o, H.HIter):
        return H.HIter(
            freshen(o.seq, ictx), o.pos, o.phase, o.summary, o.site
        )
    return o


def map_obj(o, m):
    if isinstance(o, H.HSeq):
        return o.with_seq(map_refs(o.seq, m))
    if isinstance(o, H.HIter):
        return H.HIter(
            map_refs(o.seq, m), o.pos, o.phase, o.summary, o.site
        )
    if isinstance(o, H.HDict):
        return H.HDict(
            map_refs(o.items, m), map_refs(o.sk, m), map_refs(o.sv, m),
            o.phase, o.summary, o.site,
        )
    return H.HObj(
        o.cls, map_refs(o.fields, m), o.phase, o.summary, o.site
    )


def reach(st, vals):
    order, frames, todo = [], set(), list(vals)
    seen = set()
    while todo:
        v = todo.pop(0)
        hs, fs = refs_in(v)
        frames |= fs
        for h in sorted(hs, key=repr):
            if h in seen:
                continue
            seen.add(h)
            o = st.heap.get(h)
            if o is None:
                continue
            order.append(h)
            todo.extend(x for x in o.values() if isinstance(x, V))
    return order, frames


def call_cheap(I, fn, args, kw, st, node):
    flat = []
    for a in args:
        flat.append(a[1] if isinstance(a, tuple) else a)
    flat += list(kw.values())
    order, frames = reach(st, flat)
    closed = fn.fid is None or not isinstance(fn.fid, int)
    if not closed or any(isinstance(f, int) for f in frames) or any(
        isinstance(a, tuple) for a in args
    ):
        CHEAP.append(fn)
        try:
            return I.call_fn2(fn, args, kw, st, node)
        finally:
            CHEAP.pop()
    # class summaries are reachable from any of their instances' methods
    for h in st.heap:
        if h[0] == 'o' and h not in order:
            order.append(h)
            for x in reach(st, st.heap[h].values())[0]:
                if x not in order:
                    order.append(x)
    canon = {}
    n = 0
    for h in order:
        if h[0] != 'o':
            canon[h] = ('c', n)
            n += 1
    wa = [weaken(a, st) for a in args]
    wk = {k: weaken(v, st) for k, v in kw.items()}
    wobj = {h: weak_obj(st.heap[h], st) for h in order}
    key = (
        fn,
        tuple(map_refs(a, canon) for a in wa),
        tuple(sorted((k, map_refs(v, canon)) for k, v in wk.items())),
        tuple(
            (canon.get(h, h), map_obj(wobj[h], canon).key()) for h in order
        ),
        bool(st.ictx),
    )
    rec = I.cheap_memo.get(key)
    if rec is None:
        rec = run(I, fn, wa, wk, st, node, wobj, canon)
        I.cheap_memo[key] = rec
    outs, raised, events = rec
    I.events.extend(events)
    if I.catch:
        for exc, nd in raised:
            I.catch[-1].append((st.copy(), exc, nd))
    res = []
    inv = {c: h for h, c in canon.items()}
    for v, objs in outs:
        s = st.copy() if len(outs) > 1 else st
        m = dict(inv)
        for c, _ in objs:
            if c[0] == 'n':
                m[c] = fresh_id('h')
        for c, o in objs:
            s.heap[m.get(c, c)] = open_obj(map_obj(o, m), s.ictx)
        res.append((s, freshen(map_refs(v, m), s.ictx)))
    return res


def run(I, fn, args, kw, st, node, wobj, canon):
    s = st.copy()
    given = {}
    for h, o in wobj.items():
        given[h] = s.heap[h] = open_obj(o, s.ictx)
    ev = len(I.events)
    temps = I.temps[:]
    I.temps[:] = []
    I.catch.append([])
    CHEAP.append(fn)
    try:
        outs = I.call_fn2(
            fn,
            [freshen(a, s.ictx) for a in args],
            {k: freshen(v, s.ictx) for k, v in kw.items()},
            s,
            node,
        )
    finally:
        CHEAP.pop()
        caught = I.catch.pop()
        I.temps[:] = temps
    events = I.events[ev:]
    del I.events[ev:]
    raised = []
    for _, exc, nd in caught:
        if (exc, nd) not in raised:
            raised.append((exc, nd))
    recs = []
    for s2, v in outs:
        w = weaken(v, s2)
        m = dict(canon)
        changed = [
            h
            for h, o in given.items()
            if s2.heap.get(h) is not None and s2.heap[h] is not o
        ]
        roots = [w] + [x for h in changed for x in s2.heap[h].values()]
        order, _ = reach(s2, roots)
        new = [h for h in order if h not in given]
        k = 0
        for h in new:
            if h[0] != 'o':
                m[h] = ('n', k)
                k += 1
        objs = [
            (m.get(h, h), map_obj(weak_obj(s2.heap[h], s2), m))
            for h in changed + new
        ]
        recs.append((map_refs(w, m), objs))
    return recs, raised, events
