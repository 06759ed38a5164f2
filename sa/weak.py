"""Flow-insensitive fields of summarised instances.

A field of an instance that may stand for several objects only keeps what
holds for every value ever stored: class, provenance, references.  Each read
yields a fresh representative."""
from .join import refine_prov, seq_elems
from .terms import A
from .values import *
from .values import V

W = ('w',)
WL = A(W)
WIX = ('ix', 'wk')


def weaken(v, st):
    if isinstance(v, Sc):
        return Sc(WL, refine_prov(st, v), ())
    if isinstance(v, Geo):
        return Geo(
            v.kind,
            ('wk',),
            tuple((k, weaken(w, st)) for k, w in v.f),
            v.tags,
            v.ctx,
            v.site,
        )
    if isinstance(v, Int):
        return v if all(a[0] == 'p' for a in v.l.c) else Int(WL)
    if isinstance(v, Bool):
        return Bool(('lit', ('opq', ('wk',))))
    if isinstance(v, EnumVar):
        return EnumVar(v.cls, (v.cls, 'wk'), 1)
    if isinstance(v, Opq):
        return Opq(('wk',), v.why)
    if isinstance(v, Seq):
        es = [weaken(e, st) for e in seq_elems(v)]
        el = BOT
        for e in es:
            el = wjoin(el, e)
        if isinstance(el, Bot):
            return Seq(v.kind, (), False, v.tags, ('wk',))
        if len(es) <= 4 and all(isinstance(p, Item) for p in v.parts):
            return Seq(
                v.kind, tuple(Item(e) for e in es), False, v.tags, ('wk',)
            )
        return Seq(v.kind, (Span(WIX, WL, el),), False, v.tags, ('wk',))
    if isinstance(v, Un):
        r = BOT
        for w in v.vs:
            r = wjoin(r, weaken(w, st))
        return r
    return v


def wjoin(x, y):
    """Join of weakened values."""
    if x == y or isinstance(y, Bot):
        return x
    if isinstance(x, Bot):
        return y
    if isinstance(x, Un) or isinstance(y, Un):
        vs = list(x.vs) if isinstance(x, Un) else [x]
        for w in y.vs if isinstance(y, Un) else (y,):
            for i, u in enumerate(vs):
                z = wjoin1(u, w)
                if z is not None:
                    vs[i] = z
                    break
            else:
                vs.append(w)
        if len(vs) > 8:
            return Opq(('wk',), 'too many alternatives')
        return vs[0] if len(vs) == 1 else Un(tuple(vs))
    z = wjoin1(x, y)
    return Un((x, y)) if z is None else z


def wjoin1(x, y):
    if x == y:
        return x
    t = type(x)
    if t is Opq:
        return x
    if type(y) is Opq:
        return y
    if t is not type(y):
        return None
    if t is Sc:
        return Sc(WL, prov_join(x.prov, y.prov), ())
    if t is Int:
        return Int(WL)
    if t is Ref:
        return Ref(x.ids | y.ids)
    if t is Geo and x.kind == y.kind and [k for k, _ in x.f] == [
        k for k, _ in y.f
    ]:
        return Geo(
            x.kind,
            ('wk',),
            tuple(
                (k, wjoin(a, b)) for (k, a), (_, b) in zip(x.f, y.f)
            ),
            x.tags & y.tags,
            x.ctx if x.ctx == y.ctx else 'mixed',
            x.site,
        )
    if t is Seq and x.kind == y.kind:
        if len(x.parts) == len(y.parts) and all(
            isinstance(p, Item) for p in x.parts + y.parts
        ):
            return Seq(
                x.kind,
                tuple(
                    Item(wjoin(p.v, q.v)) for p, q in zip(x.parts, y.parts)
                ),
                False,
                x.tags & y.tags,
                ('wk',),
            )
        el = BOT
        for e in seq_elems(x) + seq_elems(y):
            el = wjoin(el, e)
        return Seq(
            x.kind, (Span(WIX, WL, el),), False, x.tags & y.tags, ('wk',)
        )
    return None


def freshen(v, ictx=()):
    """A representative of a weakened value."""
    if isinstance(v, Sc):
        if v.t == WL:
            return Sc(A(fresh('wk') + ictx), v.prov, ())
        return v
    if isinstance(v, Geo):
        if v.t != ('wk',):
            return v
        f = tuple((k, freshen(w, ictx)) for k, w in v.f)
        if v.kind == 'point':
            d = dict(f)
            t = ('pt', d['x'].t, d['y'].t) if isinstance(
                d.get('x'), Sc
            ) and isinstance(d.get('y'), Sc) else fresh_id('wk')
        else:
            t = fresh_id('wk')
        return Geo(v.kind, t, f, v.tags, v.ctx, v.site)
    if isinstance(v, Int):
        return Int(A(fresh('wk') + ictx)) if v.l == WL else v
    if isinstance(v, Bool):
        return Bool(('lit', ('opq', fresh_id('wk'))))
    if isinstance(v, EnumVar):
        if v.k == (v.cls, 'wk'):
            return EnumVar(v.cls, (v.cls, 'o', fresh_id('wk')), 1)
        return v
    if isinstance(v, Opq):
        return Opq(fresh_id('wk'), v.why) if v.t == ('wk',) else v
    if isinstance(v, Seq) and v.sid == ('wk',):
        parts = []
        for p in v.parts:
            if isinstance(p, Item):
                parts.append(Item(freshen(p.v, ictx)))
            else:
                parts.append(
                    Span(
                        p.ix,
                        A(('nn', (fresh_id('wk'),)) + tuple(ictx)),
                        freshen(p.tmpl, ictx + (A(p.ix),)),
                    )
                )
        return v.replace(parts=tuple(parts), sid=fresh_id('q'))
    if isinstance(v, Un):
        return Un(tuple(freshen(w, ictx) for w in v.vs))
    return v


def open_span(q, st):
    """Freshen the elements of a one-span sequence of weak values."""
    if len(q.parts) != 1 or not isinstance(q.parts[0], Span):
        return q
    p = q.parts[0]
    return q.replace(
        parts=(Span(p.ix, p.n, freshen(p.tmpl, st.ictx + (A(p.ix),))),)
    )
