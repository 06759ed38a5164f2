"""Join / widening of abstract states and values."""
from .state import (
    CHEAP,
    fatoms,
    DOMAINS,
    SORTED,
    State,
    UNIQUE,
    entails,
    f_atoms,
    f_lin,
    f_subst,
    ge,
)
from .terms import A, L, Lin, ZERO, mul, nested_atoms, normalize, subst_lin, subst_term
from .values import (
    ARITH,
    BOT,
    Bool,
    Bot,
    Bound,
    Cls,
    Const,
    Enum,
    EnumVar,
    Fn,
    Geo,
    Int,
    Item,
    Opq,
    Partial,
    Prov,
    Ref,
    Sc,
    Seq,
    Span,
    Strat,
    Un,
    V,
    fresh,
    fresh_id,
    prov_join,
    vsubst,
)
from . import heap as H


# ------------------------------------------------------------------- sums
def sum_lin(l, ix, n):
    """Sum of l over ix in range(n)."""
    acc = n.scale(l.k) if l.k else ZERO
    for a, v in l.c.items():
        if ix in nested_atoms(a):
            g = subst_term(a, {ix: ('ix', '_')})
            acc = acc + A(('S', g, n)).scale(v)
        else:
            acc = acc + mul(n, A(a)).scale(v)
    return acc


def seq_sum(seq):
    """Sum of an integer sequence, or None."""
    acc = ZERO
    for p in seq.parts:
        if isinstance(p, Item):
            if isinstance(p.v, Const) and isinstance(p.v.v, bool):
                acc = acc + L(int(p.v.v))
                continue
            if not isinstance(p.v, Int):
                return None
            acc = acc + p.v.l
        else:
            if isinstance(p.tmpl, Bot):
                continue
            if not isinstance(p.tmpl, Int):
                return None
            acc = acc + sum_lin(p.tmpl.l, p.ix, p.n)
    return acc


def seq_elems(seq):
    return [p.v if isinstance(p, Item) else p.tmpl for p in seq.parts]


# ------------------------------------------------------------ value walks
_NOREFS = (frozenset(), frozenset())


def refs_in(v):
    """(heap ids, frame ids) referenced by a value."""
    r = v._r
    if r is None:
        hs, fs = set(), set()
        if isinstance(v, Ref):
            hs.update(v.ids)
        elif isinstance(v, Fn):
            if v.fid is not None:
                fs.add(v.fid)
            if v.extra is not None:
                _walk_x(v.extra, hs, fs)
        else:
            for n in v._fields:
                _walk_x(getattr(v, n), hs, fs)
        r = (frozenset(hs), frozenset(fs)) if hs or fs else _NOREFS
        v._r = r
    return r


def _walk_x(x, hs, fs):
    if isinstance(x, V):
        h, f = refs_in(x)
        if h:
            hs |= h
        if f:
            fs |= f
    elif isinstance(x, tuple):
        for e in x:
            if isinstance(e, (V, tuple)):
                _walk_x(e, hs, fs)


def reachable(st, roots, vals, parents):
    hs, fs = set(), set()
    wh, wf = [], []

    def add(v):
        r = v._r or refs_in(v)
        if r is _NOREFS:
            return
        h, f = r
        for x in h:
            if x not in hs:
                hs.add(x)
                wh.append(x)
        for x in f:
            addf(x)

    def addf(x):
        while x is not None and x not in fs:
            fs.add(x)
            wf.append(x)
            x = parents.get(x)

    for r in roots:
        addf(r)
    for v in vals:
        add(v)
    for v in st.ghost.values():
        if isinstance(v, V):
            add(v)
    while wh or wf:
        if wf:
            x = wf.pop()
            for v in st.frames.get(x, {}).values():
                add(v)
        else:
            x = wh.pop()
            o = st.heap.get(x)
            if o is not None:
                for v in o.values():
                    add(v)
    return hs, fs


def gc(st, roots, vals, parents):
    hs, fs = reachable(st, roots, vals, parents)
    if len(st.heap) > len(hs) or not hs.issuperset(st.heap):
        for x in [x for x in st.heap if x not in hs]:
            del st.heap[x]
    if not fs.issuperset(st.frames):
        for x in [x for x in st.frames if x not in fs]:
            del st.frames[x]


def value_atoms(v, acc):
    if isinstance(v, V):
        for n in v._fields:
            if n != 'site':
                _atoms_x(getattr(v, n), acc)


def atoms_of(v):
    r = v._a
    if r is None:
        acc = set()
        value_atoms(v, acc)
        r = v._a = frozenset(acc)
    return r


def _atoms_x(x, acc):
    if isinstance(x, V):
        acc |= atoms_of(x)
    elif isinstance(x, Lin):
        for a in x.c:
            acc |= nested_atoms(a)
            acc.add(a)
    elif isinstance(x, tuple):
        for e in x:
            if isinstance(e, (V, tuple, Lin)):
                _atoms_x(e, acc)
        acc.add(x)
    elif isinstance(x, frozenset):
        for e in x:
            if isinstance(e, (V, tuple, Lin)):
                _atoms_x(e, acc)


def live_atoms(st, vals):
    live = set()
    for fr in st.frames.values():
        for v in fr.values():
            live |= atoms_of(v)
    for o in st.heap.values():
        for v in o.values():
            live |= atoms_of(v)
        if isinstance(o, H.HIter):
            _atoms_x(o.pos, live)
    for v in st.ghost.values():
        _atoms_x(v, live)
    for v in vals:
        live |= atoms_of(v)
    _atoms_x(st.ictx, live)
    return live


def prune(st, vals, keep=()):
    """Project the facts onto the atoms that values still mention."""
    if CHEAP or len(st.lins) < 16:
        return
    live = live_atoms(st, vals)
    fams = {a[:2] for a in live if len(a) > 2 and a[0] in ('d', 'e', 'nn')}
    ok = {}

    def alive(a):
        r = ok.get(a)
        if r is None:
            h = a[0]
            if a in live or a in keep or h == 'p':
                r = True
            elif h in ('d', 'e', 'nn') and len(a) > 2 and a[:2] in fams:
                r = True
            elif h in ('max', 'min'):
                r = all(alive(b) for x in a[1] for b in x.c)
            elif h == '*':
                r = all(alive(b) for b in a[1])
            elif h in ('//', '%'):
                r = all(alive(b) for x in a[1:] for b in x.c)
            elif h == 'S':
                r = alive(a[1]) and all(alive(b) for b in a[2].c)
            else:
                r = False
            ok[a] = r
        return r

    st.disj = tuple(
        f for f in st.disj if all(alive(a) for a in f_at(f))
    )
    dead = []
    for l in st.lins:
        for a in l.c:
            if not alive(a) and a not in dead:
                dead.append(a)
    if not dead:
        return
    lins = dict(st.lins)
    dset = set(dead)
    while dset:
        occ = {}
        for l in lins:
            for a in l.c:
                if a in dset:
                    occ.setdefault(a, []).append(l)
        dset &= set(occ)
        if not dset:
            break

        def cost(a):
            p = sum(1 for l in occ[a] if l.c[a] > 0)
            return p * (len(occ[a]) - p) - len(occ[a])

        a = min(occ, key=lambda a: (cost(a), repr(a)))
        ls = occ[a]
        dset.discard(a)
        for l in ls:
            del lins[l]
        eqs = [l for l in ls if -l in occ_set(ls) and abs(l.c[a]) == 1]
        if eqs:
            e = min(eqs, key=lambda l: len(l.c))
            rest = Lin({b: v for b, v in e.c.items() if b != a}, e.k)
            sol = -rest if e.c[a] == 1 else rest
            for l in ls:
                x = Lin(
                    {b: v for b, v in l.c.items() if b != a}, l.k
                ) + sol.scale(l.c[a])
                if x.c:
                    lins[normalize(x)] = None
            continue
        ps = [l for l in ls if l.c[a] > 0]
        ns = [l for l in ls if l.c[a] < 0]
        if len(ps) * len(ns) > len(ls) + 4:
            continue
        for x in ps:
            for y in ns:
                z = x.scale(-y.c[a]) + y.scale(x.c[a])
                if z.c and len(z.c) <= 6:
                    lins[normalize(z)] = None
    st.lins = lins


def occ_set(ls):
    return set(ls)


def f_at(f):
    return fatoms(f)


# ------------------------------------------------------------------- join
TRACE = False


class Joiner:
    def __init__(self, a, b, name=None, headatoms=None, variant=None):
        self.a, self.b = a, b
        self.out = State()
        self.pairs = []  # (atom, linA|None, linB)
        self.pair_memo = {}
        self.hmap = {}
        self.hwork = []
        self.name = name
        self.head = headatoms if headatoms is not None else set()
        self.variant = variant or (lambda t: False)
        self.ictx = []
        self.path = []
        self.nameno = {}
        self._changed = False
        self.why = []

    @property
    def changed(self):
        return self._changed

    @changed.setter
    def changed(self, v):
        self._changed = v
        if TRACE:
            import sys

            f = sys._getframe(1)
            self.why.append((f.f_code.co_name, f.f_lineno, tuple(self.path)))

    # -------------------------------------------------------------- atoms
    def new_atom(self):
        args = self.a.ictx + tuple(A(i) for i in self.ictx)
        if self.name is not None:
            p = '/'.join(map(str, self.path))
            n = self.nameno.get(p, 0)
            self.nameno[p] = n + 1
            at = ('d', ('h', self.name, p, n)) + args
        else:
            at = fresh('j') + args
        self.head.add(at)
        return at

    def jlin(self, la, lb):
        if la == lb and not (self.ictx and self.is_variant(la)):
            return la
        key = (la, lb, tuple(self.ictx))
        r = self.pair_memo.get(key)
        if r is not None:
            return r
        s = la.single() if la is not None else None
        if s is not None and s in self.head:
            at = s
        else:
            if la is not None and lb is not None:
                d = (la - lb).const
            at = self.new_atom()
            self.changed = True
        r = A(at)
        self.pair_memo[key] = r
        self.pairs.append((at, la, lb))
        return r

    def is_variant(self, l):
        return any(self.variant(x) for a in l.c for x in nested_atoms(a))

    def blur_lin(self, l):
        """Generalise a term of one iteration to an element family."""
        if not self.is_variant(l):
            return l
        return self.jlin(None, l)

    # ------------------------------------------------------------- values
    def join(self, x, y):
        if x is y or x == y:
            self.touch(x)
            if self.ictx:
                return self.blur(x)
            return x
        if isinstance(x, Bot):
            self.touch(y, 1)
            return self.blur(y)
        if isinstance(y, Bot):
            self.touch(x, 0)
            return x
        tx, ty = type(x), type(y)
        if tx is Const and isinstance(x.v, bool) and ty is Int:
            x, tx = Int(L(int(x.v))), Int
        if ty is Const and isinstance(y.v, bool) and tx is Int:
            y, ty = Int(L(int(y.v))), Int
        if isinstance(x, Un) or isinstance(y, Un):
            return self.join_un(x, y)
        if tx is Int and ty is Int:
            return Int(self.jlin(x.l, y.l))
        if tx is Sc and ty is Sc:
            return self.join_sc(x, y)
        if tx in (Bool, Const) and ty in (Bool, Const):
            bx = tx is Bool or isinstance(x.v, bool)
            by = ty is Bool or isinstance(y.v, bool)
            if bx and by:
                if tx is Bool and x.f[0] == 'lit' and x.f[1][0] == 'opq':
                    return x
                self.changed = True
                return Bool(('lit', ('opq', fresh_id('jb'))))
        if tx is Geo and ty is Geo and x.kind == y.kind and (
            [k for k, _ in x.f] == [k for k, _ in y.f]
        ):
            f = []
            for (k, u), (_, w) in zip(x.f, y.f):
                self.path.append(k)
                f.append((k, self.join(u, w)))
                self.path.pop()
            return Geo(
                x.kind,
                x.t if x.t == y.t else self.geo_term(x, f),
                tuple(f),
                x.tags & y.tags,
                x.ctx if x.ctx == y.ctx else 'mixed',
                x.site,
            )
        if tx is Seq and ty is Seq:
            return self.join_seq(x, y)
        if tx is Ref and ty is Ref:
            return self.join_ref(x, y)
        if tx is Partial and ty is Partial and len(x.args) == len(
            y.args
        ) and [k for k, _ in x.kw] == [k for k, _ in y.kw] and x.fn == y.fn:
            return Partial(
                x.fn,
                tuple(self.join(u, w) for u, w in zip(x.args, y.args)),
                tuple(
                    (k, self.join(u, w))
                    for (k, u), (_, w) in zip(x.kw, y.kw)
                ),
            )
        if tx is Strat and ty is Strat:
            return self.join_strat(x, y)
        if tx is Opq:
            return x
        if ty is Opq:
            self.changed = True
            return y
        if tx is EnumVar and ty in (Enum, EnumVar) or (
            ty is EnumVar and tx in (Enum, EnumVar)
        ):
            if (
                tx is EnumVar
                and isinstance(x.k, tuple)
                and x.k and x.k[0] == 'opqenum'
            ):
                return x
            k = self.enum_key(x)
            if not (tx is EnumVar and x.k == k and x.sign == 1):
                self.changed = True
            return EnumVar(x.cls, k, 1)
        self.changed = True
        return Un((x, y))

    def strat_like(self, x, y):
        return (
            x.op == y.op and x.op != 'or'
            and len(x.args) == len(y.args)
            and [k for k, _ in x.kw] == [k for k, _ in y.kw]
            and all(
                type(u) is type(w) and (
                    isinstance(u, (Int, Sc, Seq, Ref, Geo))
                    if u != w else True
                ) if not isinstance(u, Strat) else (
                    isinstance(w, Strat) and self.strat_like(u, w)
                )
                for u, w in zip(
                    x.args + tuple(v for _, v in x.kw),
                    y.args + tuple(v for _, v in y.kw),
                )
            )
        )

    def join_strat(self, x, y):
        if self.strat_like(x, y):
            args = []
            for i, (u, w) in enumerate(zip(x.args, y.args)):
                self.path.append(i)
                args.append(
                    self.join(u, w) if isinstance(u, V) else u
                )
                self.path.pop()
            kw = []
            for (k, u), (_, w) in zip(x.kw, y.kw):
                self.path.append(k)
                kw.append((k, self.join(u, w) if isinstance(u, V) else u))
                self.path.pop()
            return Strat(x.op, tuple(args), tuple(kw), x.site)
        xs = list(x.args) if x.op == 'or' else [x]
        for w in (y.args if y.op == 'or' else (y,)):
            for i, u in enumerate(xs):
                if u == w:
                    self.touch(u)
                    break
                if isinstance(u, Strat) and isinstance(w, Strat) and (
                    self.strat_like(u, w)
                ):
                    self.path.append('alt%d' % i)
                    xs[i] = self.join_strat(u, w)
                    self.path.pop()
                    break
            else:
                self.changed = True
                self.touch(w, 1)
                xs.append(w)
        return xs[0] if len(xs) == 1 else Strat('or', tuple(xs), (), x.site)

    def join_un(self, x, y):
        xs = list(x.vs) if isinstance(x, Un) else [x]
        ys = list(y.vs) if isinstance(y, Un) else [y]
        out = list(xs)
        for w in ys:
            for i, u in enumerate(out):
                if u == w:
                    self.touch(u)
                    break
                if type(u) is type(w) and isinstance(
                    w, (Int, Sc, Seq, Ref, Geo)
                ) and not (isinstance(w, Geo) and w.kind != u.kind):
                    out[i] = self.join(u, w)
                    break
            else:
                out.append(w)
                self.changed = True
                self.touch(w, 1)
        for u in xs:
            self.touch(u, 0)
        if len(out) > 10:
            return Opq(fresh_id('un'), 'too many alternatives')
        return out[0] if len(out) == 1 else Un(tuple(out))

    def new_term(self, tag):
        """Identity term of a joined value (per element in families)."""
        args = self.a.ictx + tuple(A(i) for i in self.ictx)
        if self.name is not None:
            p = '/'.join(map(str, self.path))
            return (tag, ('h', self.name, p)) + args
        return (tag, fresh_id('j')) + args

    def is_head_term(self, t, tag):
        return (
            self.name is not None
            and isinstance(t, tuple)
            and len(t) > 1
            and t[0] == tag
            and isinstance(t[1], tuple)
            and t[1][:2] == ('h', self.name)
        )

    def geo_term(self, x, f):
        if x.kind == 'Point':
            d = dict(f)
            if isinstance(d.get('x'), Sc) and isinstance(d.get('y'), Sc):
                return ('pt', d['x'].t, d['y'].t)
        if self.is_head_term(x.t, 'gj'):
            return x.t
        return self.new_term('gj')

    def enum_key(self, x):
        if isinstance(x, EnumVar) and self.is_head_term(x.k[1], 'en'):
            return x.k
        return (x.cls, self.new_term('en'))

    def join_sc(self, x, y):
        prov = prov_join(refine_prov(self.a, x), refine_prov(self.b, y))
        if prov != x.prov:
            self.changed = True
        self.path.append('t')
        t = self.jlin(x.t, y.t)
        self.path.pop()
        views = []
        yv = dict(y.views)
        for s, i in x.views:
            if s in yv:
                self.path.append(s)
                views.append((s, self.jlin(i, yv[s])))
                self.path.pop()
            else:
                self.changed = True
        return Sc(t, prov, tuple(views))

    def join_seq(self, x, y):
        ix_shape = len(x.parts) == len(y.parts) and all(
            type(p) is type(q) for p, q in zip(x.parts, y.parts)
        )
        tags = x.tags & y.tags
        subs = x.subs & y.subs
        if ix_shape and not x.perm and not y.perm:
            if all(
                isinstance(p, Item)
                or (p.ix == q.ix)
                for p, q in zip(x.parts, y.parts)
            ):
                parts = []
                for k, (p, q) in enumerate(zip(x.parts, y.parts)):
                    self.path.append(k)
                    if isinstance(p, Item):
                        parts.append(Item(self.join(p.v, q.v)))
                    else:
                        self.path.append('n')
                        n = self.jlin(p.n, q.n)
                        self.path.pop()
                        self.ictx.append(p.ix)
                        tm = self.join(p.tmpl, q.tmpl)
                        self.ictx.pop()
                        parts.append(Span(p.ix, n, tm))
                    self.path.pop()
                return Seq(
                    x.kind,
                    tuple(parts),
                    False,
                    tags,
                    x.sid if x.sid == y.sid else self.seq_id(x),
                    subs,
                    x.site,
                )
        # generic: one span
        head = None
        if (
            len(x.parts) == 1
            and isinstance(x.parts[0], Span)
            and isinstance(x.parts[0].ix[1], tuple)
            and x.parts[0].ix[1][0] == 'jn'
        ):
            head = x.parts[0]
        if head is not None:
            ix = head.ix
        elif self.name is not None:
            ix = ('ix', ('jn', self.name, '/'.join(map(str, self.path))))
            self.changed = True
        else:
            ix = ('ix', ('jn', fresh_id('q')))
            self.changed = True
        self.path.append('len')
        n = self.jlin(x.length(), y.length())
        self.path.pop()
        tm = head.tmpl if head is not None else BOT
        self.ictx.append(ix)
        self.path.append('el')
        if head is None:
            for e in seq_elems(rename(x, ix)):
                tm = self.join(tm, e)
        for p in y.parts:
            if isinstance(p, Item):
                tm = self.join(tm, p.v)
            elif head is not None and p.ix == head.ix:
                if p.tmpl != head.tmpl:
                    tm = self.join(tm, p.tmpl)
            else:
                tm = self.join(tm, vsubst(p.tmpl, {p.ix: A(ix)}))
        self.path.pop()
        self.ictx.pop()
        r = Seq(
            x.kind,
            (Span(ix, n, tm),),
            False,
            tags,
            self.seq_id(x),
            subs,
            x.site or y.site,
        )
        if isinstance(tm, Int):
            sa, sb = seq_sum(x), seq_sum(y)
            so = seq_sum(r)
            s = so.single()
            if s is not None and sa is not None and sb is not None:
                self.pairs.append((s, sa if sa != so else A(s), sb))
        return r

    def seq_id(self, x):
        if isinstance(x.sid, tuple) and x.sid and x.sid[0] == 'sj':
            return x.sid
        return fresh_id('sj')

    def join_ref(self, x, y):
        if len(x.ids) == 1 and len(y.ids) == 1:
            (p,), (q,) = x.ids, y.ids
            if self.hmap.get(('a', p), q) == q and self.hmap.get(
                ('b', q), p
            ) == p:
                if ('a', p) not in self.hmap:
                    self.hmap['a', p] = q
                    self.hmap['b', q] = p
                    self.hwork.append((p, q))
                return x
        new = set(y.ids)
        if self.name is not None and len(x.ids) > 1:
            # objects allocated by this iteration take over the identity
            # of those allocated by the previous one
            for q in sorted(y.ids - x.ids, key=repr):
                ob = self.b.heap.get(q)
                if q in self.a.heap or ob is None or ob.key()[0] == 'obj':
                    continue
                p = self.hmap.get(('b', q))
                if p is not None:
                    if p in x.ids:
                        new.discard(q)
                    continue
                for p in sorted(x.ids - y.ids, key=repr):
                    oa = self.a.heap.get(p)
                    if (
                        ('a', p) not in self.hmap
                        and p not in self.b_live()
                        and type(oa) is type(ob)
                        and getattr(oa, 'kind', 0) == getattr(ob, 'kind', 0)
                    ):
                        self.hmap['a', p] = q
                        self.hmap['b', q] = p
                        self.hwork.append((p, q))
                        new.discard(q)
                        break
        ids = x.ids | new
        if ids != x.ids:
            self.changed = True
        y = Ref(frozenset(new)) if new else x
        for p in x.ids:
            self.hwork.append((p, None))
        for q in y.ids:
            self.hwork.append((None, q))
        return Ref(ids)

    def b_live(self):
        return self.b.heap

    def touch(self, v, side=None):
        hs, fs = refs_in(v)
        for h in hs:
            if side is None:
                self.join_ref(Ref(frozenset([h])), Ref(frozenset([h])))
            elif side == 0:
                self.hwork.append((h, None))
            else:
                self.hwork.append((None, h))

    def blur(self, v):
        """Rename iteration-variant parts of a value into element families
        (only when joining inside an element template)."""
        if not self.ictx or not isinstance(v, V):
            return v
        if isinstance(v, Int):
            return Int(self.blur_lin(v.l))
        if isinstance(v, Sc):
            return Sc(
                self.blur_lin(v.t),
                refine_prov(self.b, v),
                tuple((s, self.blur_lin(i)) for s, i in v.views),
            )
        if isinstance(v, Geo):
            f = tuple((k, self.blur(w)) for k, w in v.f)
            return Geo(
                v.kind,
                self.geo_term(v, f) if self.term_variant(v.t) else v.t,
                f,
                v.tags,
                v.ctx,
                v.site,
            )
        if isinstance(v, Seq):
            parts = []
            for p in v.parts:
                if isinstance(p, Item):
                    parts.append(Item(self.blur(p.v)))
                else:
                    n = self.blur_lin(p.n)
                    self.ictx.append(p.ix)
                    parts.append(Span(p.ix, n, self.blur(p.tmpl)))
                    self.ictx.pop()
            return v.replace(parts=tuple(parts))
        if isinstance(v, Un):
            return Un(tuple(self.blur(w) for w in v.vs))
        if isinstance(v, EnumVar) and self.term_variant(v.k):
            return EnumVar(v.cls, (v.cls, self.new_term('en')), 1)
        if isinstance(v, Opq) and self.term_variant(v.t):
            return Opq(self.new_term('oj'), v.why)
        if isinstance(v, Bool):
            return Bool(('lit', ('opq', self.new_term('bj'))))
        return v

    def term_variant(self, t):
        acc = set()
        _atoms_x(t, acc)
        return any(self.variant(x) for x in acc)

    # -------------------------------------------------------------- states
    def run(self, roots, va, vb):
        a, b, out = self.a, self.b, self.out
        vals = tuple(self.join(x, y) for x, y in zip(va, vb))
        for fid in a.frames:
            if fid in b.frames:
                fa, fb = a.frames[fid], b.frames[fid]
                fo = {}
                for n, x in fa.items():
                    if n in fb:
                        self.path.append('%s.%s' % (fid, n))
                        fo[n] = self.join(x, fb[n])
                        self.path.pop()
                for n, y in fb.items():
                    if n not in fa:
                        fo[n] = y
                        self.touch(y, 1)
                        self.changed = True
                for n, x in fa.items():
                    if n not in fb:
                        fo[n] = x
                        self.touch(x, 0)
                out.frames[fid] = fo
            else:
                out.frames[fid] = a.frames[fid]
                for x in a.frames[fid].values():
                    self.touch(x, 0)
        for fid in b.frames:
            if fid not in a.frames:
                out.frames[fid] = b.frames[fid]
                for y in b.frames[fid].values():
                    self.touch(y, 1)
        for k, x in a.ghost.items():
            if k in b.ghost:
                if isinstance(x, V):
                    self.path.append(k)
                    out.ghost[k] = self.join(x, b.ghost[k])
                    self.path.pop()
                else:
                    out.ghost[k] = H.ghost_join(k, x, b.ghost[k])
                    if out.ghost[k] != x:
                        self.changed = True
            else:
                out.ghost[k] = x
        for k, y in b.ghost.items():
            if k not in a.ghost:
                out.ghost[k] = y
                self.changed = True
        self.heap()
        self.facts()
        out.ictx = a.ictx
        out.memo = a.memo
        return out, vals

    def heap(self):
        done = set()
        while self.hwork:
            p, q = self.hwork.pop()
            if (p, q) in done:
                continue
            done.add((p, q))
            oa = self.a.heap.get(p) if p is not None else None
            ob = self.b.heap.get(q) if q is not None else None
            key = p if p is not None else q
            if p is None:
                # object of b only: keep under its own id
                if key in self.a.heap and ('b', key) not in self.hmap:
                    self.hwork.append((key, key))
                    continue
                if key in self.out.heap or ob is None:
                    continue
                self.out.heap[key] = ob
                for v in ob.values():
                    self.touch(v, 1)
                continue
            if q is None:
                if key in self.b.heap and ('a', key) not in self.hmap:
                    self.hwork.append((key, key))
                    continue
                if key in self.out.heap or oa is None:
                    continue
                self.out.heap[key] = oa
                for v in oa.values():
                    self.touch(v, 0)
                continue
            if oa is None or ob is None:
                o = oa or ob
                if o is not None:
                    self.out.heap[key] = o
                    for v in o.values():
                        self.touch(v, 0 if oa is not None else 1)
                continue
            self.path.append('@%s' % (key,))
            self.out.heap[key] = H.join_obj(self, oa, ob)
            self.path.pop()

    def facts(self):
        a, b, out = self.a, self.b, self.out
        if CHEAP:
            out.lins, out.lits, out.doms = a.lins, a.lits, a.doms
            out.disj, out.exs = a.disj, a.exs
            return
        mb = {at: lb for at, la, lb in self.pairs}
        ma = {at: la for at, la, lb in self.pairs if la is not None}
        keep = {}
        nq = 0

        def holds_b(l):
            x = subst_lin(l, mb) if mb else l
            if x.const is not None:
                return x.const >= 0
            return x in b.lins or ge(b, x, ZERO)

        def holds_a(l):
            for at in l.c:
                if at in mb and at not in ma:
                    return True  # vacuous: no element on that side yet
            x = subst_lin(l, ma) if ma else l
            if x.const is not None:
                return x.const >= 0
            return x in a.lins or ge(a, x, ZERO)

        def nested_joined(l):
            return any(at in mb for at in l.c)

        # facts of a (over shared or joined-in-place atoms)
        for l in a.lins:
            if not nested_joined(l) and l in b.lins:
                keep[l] = None
                continue
            nq += 1
            if nq < 160 and holds_b(l):
                keep[l] = None
            else:
                self.changed = True
        nq = 0
        for l in b.lins:
            if l in keep:
                continue
            if self.name is not None and self.pass_no > 1:
                break
            nq += 1
            if nq < 60 and not nested_joined(l) and holds_a(l):
                keep[l] = None
        # candidates for newly joined atoms
        newp = [
            (at, la, lb)
            for at, la, lb in self.pairs
            if la is None or la.single() != at
        ]
        cands = []
        if newp:
            ren_a, ren_b = {}, {}
            for at, la, lb in self.pairs:
                if la is not None and la.single() is not None:
                    ren_a.setdefault(la.single(), A(at))
                if lb is not None and lb.single() is not None:
                    ren_b.setdefault(lb.single(), A(at))
            for l in a.lins:
                if any(x in ren_a for x in l.c):
                    cands.append(subst_lin(l, ren_a))
            for l in b.lins:
                if any(x in ren_b for x in l.c):
                    cands.append(subst_lin(l, ren_b))
        for at, la, lb in newp:
            j = A(at)
            for x in (la, lb):
                if x is not None:
                    cands.append(j - x)
                    cands.append(x - j)
            cands.append(j)
        allp = self.pairs[:14]
        newset = {at for at, _, _ in newp}
        for i, (p, la, lb) in enumerate(allp):
            for q, lc, ld in allp[i + 1:]:
                if p not in newset and q not in newset:
                    continue
                for sgn in (-1, 1):
                    if la is not None and lc is not None:
                        d = la + lc.scale(sgn)
                    else:
                        d = lb + ld.scale(sgn)
                    if self.is_variant(d):
                        continue
                    e = A(p) + A(q).scale(sgn) - d
                    cands.append(e)
                    cands.append(-e)
                    if self.name is not None and la is not None:
                        d2 = lb + ld.scale(sgn)
                        if d2 != d and not self.is_variant(d2):
                            e = A(p) + A(q).scale(sgn) - d2
                            cands.append(e)
                            cands.append(-e)
        seen = set()
        cnt = 0
        for l in cands:
            if l in seen or l in keep or l.const is not None:
                continue
            seen.add(l)
            cnt += 1
            if cnt > 220:
                break
            if holds_b(l) and holds_a(l):
                keep[l] = None
        out.lins = keep
        for k, v in a.lits.items():
            if b.lits.get(k) is v:
                out.lits[k] = v
            else:
                self.changed = True
        for k, v in a.doms.items():
            w = b.dom(k)
            if w is not None:
                out.doms[k] = v | w
                if out.doms[k] != v:
                    self.changed = True
            else:
                self.changed = True
        for k, w in b.doms.items():
            if k not in a.doms:
                v = a.dom(k)
                if v is not None:
                    out.doms[k] = v | w
        out.disj = tuple(
            f
            for f in a.disj
            if f in b.disj or entails(b, f_subst(f, mb) if mb else f)
        )
        if len(out.disj) != len(a.disj):
            self.changed = True
        out.exs = tuple(f for f in a.exs if f in b.exs)

    pass_no = 1


def refine_prov(st, s):
    """Provenance of a scalar strengthened with the state's order facts."""
    p = s.prov
    cmpf = st.ghost.get("cmp")
    if not cmpf:
        return p
    lo, hi = p.lo, p.hi
    for (x, y) in cmpf:  # x <= y known
        if x.t == s.t and y is not s:
            hi = hi | y.prov.hi
        if y.t == s.t and x is not s:
            lo = lo | x.prov.lo
    if lo is p.lo and hi is p.hi:
        return p
    return Prov(p.exact, lo, hi)


def rename(seq, ix):
    parts = []
    for p in seq.parts:
        if isinstance(p, Span):
            parts.append(Span(ix, p.n, vsubst(p.tmpl, {p.ix: A(ix)})))
        else:
            parts.append(p)
    return seq.replace(parts=tuple(parts))


def st_subst(st, m):
    """Substitute atoms everywhere in a state (in place)."""
    memo = {}
    st.nn = {}
    for fid, fr in st.frames.items():
        for n, v in fr.items():
            w = vsubst(v, m, memo)
            if w is not v:
                fr[n] = w
    for h, o in list(st.heap.items()):
        n = H.subst_obj(o, m, memo)
        if n is not o:
            st.heap[h] = n
    st.lins = dict.fromkeys(
        x for x in (subst_lin(l, m) for l in st.lins) if x.const is None
    )
    st.lits = {subst_term(k, m): v for k, v in st.lits.items()}
    st.doms = {subst_term(k, m): v for k, v in st.doms.items()}
    st.disj = tuple(f_subst(f, m) for f in st.disj)
    st.exs = tuple(f_subst(f, m) for f in st.exs)
    for k, v in list(st.ghost.items()):
        st.ghost[k] = H.ghost_subst(k, v, m, memo)
