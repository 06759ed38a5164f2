"""Contracts of the libraries the package calls (trusted base)."""
import ast
import math as _math

from . import heap as H
from .join import Joiner, seq_elems, seq_sum
from .ops import as_bool, int_of, is_str, opq_bool, sc_pair
from .seqs import new_ix, sub_seq
from .state import (
    CHEAP,
    F,
    POSDIV,
    SORTED,
    T,
    UNIQUE,
    entails,
    eq,
    f_and,
    f_eq,
    f_lin,
    f_not,
    f_or,
    f_subst,
    ge,
    truth,
)
from .terms import A, L, Lin, ONE, ZERO, mk_extreme, subst_lin
from .values import *
from .values import V
from .weak import freshen, open_span, weaken, wjoin

GEO_FIELDS = {
    'Point': ('x', 'y'),
    'Segment': ('start', 'end'),
    'Box': ('min_x', 'max_x', 'min_y', 'max_y'),
    'Contour': ('vertices',),
    'Polygon': ('border', 'holes'),
    'Multipoint': ('points',),
    'Multisegment': ('segments',),
    'Multipolygon': ('polygons',),
    'Mix': ('discrete', 'linear', 'shaped'),
    'Empty': (),
}
CTX_CLS = {
    'point_cls': 'Point',
    'segment_cls': 'Segment',
    'box_cls': 'Box',
    'contour_cls': 'Contour',
    'polygon_cls': 'Polygon',
    'multipoint_cls': 'Multipoint',
    'multisegment_cls': 'Multisegment',
    'multipolygon_cls': 'Multipolygon',
    'mix_cls': 'Mix',
    'empty_cls': 'Empty',
}
ENUMS = {'Orientation', 'Relation', 'Location', 'Kind', 'Mode'}
NONDET = (
    'random.', 'time.', 'os.urandom', 'uuid.', 'secrets.', 'datetime.',
    'numpy.random.',
)


def lib_attr(self, v, name):
    last = v.path.rpartition('.')[2]
    if v.path.startswith('ground.') and last in ENUMS:
        return Enum(last, name)
    return Lib(v.path + '.' + name)


# ------------------------------------------------------------- geometries
def mk_geo(self, kind, ctx, args, st, node):
    names = GEO_FIELDS[kind]
    if len(args) != len(names):
        self.event('badcall', node, st, fn=kind)
        self.raise_(st, Lib('builtins.TypeError'), node)
        return []
    outs = [(st, ())]
    for n, a in zip(names, args):
        nxt = []
        for s, f in outs:
            if n in (
                'vertices', 'holes', 'points', 'segments', 'polygons'
            ):
                for s2, q in self.as_seq(a, s, node):
                    nxt.append((s2, f + ((n, q),)))
            else:
                for w in a.vs if isinstance(a, Un) else [a]:
                    nxt.append((s.copy() if isinstance(a, Un) else s,
                                f + ((n, w),)))
        outs = nxt
    res = []
    for s, f in outs:
        d = dict(f)
        if kind == 'Point':
            x, y = d['x'], d['y']
            t = (
                ('pt', x.t, y.t)
                if isinstance(x, Sc) and isinstance(y, Sc)
                else fresh_id('pt')
            )
        elif kind == 'Segment' and all(
            isinstance(w, Geo) for w in d.values()
        ):
            t = ('sg', d['start'].t, d['end'].t)
        elif kind == 'Empty':
            t = ('em', ctx)
        elif kind == 'Contour':
            t = ('ct', d['vertices'].sid)
        else:
            t = fresh_id('g')
        tags = frozenset()
        if kind == 'Segment':
            r = separated(s, d['start'], d['end'])
            if r:
                tags = frozenset(
                    ['edge', 'nondegenerate'] if r is True else ['edge']
                )
        f = tuple((n, unmark(w)) for n, w in f)
        res.append((s, Geo(kind, t, f, tags, ctx, self.site(node))))
    return res


def unmark(w):
    if isinstance(w, Geo) and any(t[0] == 'at' for t in w.tags):
        return w.replace(
            tags=frozenset(t for t in w.tags if t[0] != 'at')
        )
    return w


def separated(st, p, q):
    """Whether the facts exclude that two points are equal.

    Different positions of one vertex list count as different points: that
    vertex lists do not repeat points is assumed here.
    """
    if not (isinstance(p, Geo) and isinstance(q, Geo)):
        return False
    saved, CHEAP[:] = CHEAP[:], []
    try:
        return _separated(st, p, q)
    finally:
        CHEAP[:] = saved


def _separated(st, p, q):
    ne = []
    apart = []
    edge = False
    for n in 'xy':
        a, b = p.get(n), q.get(n)
        if not (isinstance(a, Sc) and isinstance(b, Sc)):
            return False
        d = a.t - b.t
        if d.const is not None:
            if d.const != 0:
                return True
            continue
        i, j = sc_pair(a, b)
        ne.append(f_lin(i - j - 1))
        ne.append(f_lin(j - i - 1))
        apart.append(not drawn(a.t) and not drawn(b.t) and diffs(a.t, b.t))
    if ne and entails(st, f_or(ne)):
        return True
    for t in p.tags:
        for u in q.tags:
            if t[0] == u[0] == 'at' and t[1] == u[1]:
                i, j = t[2], u[2]
                if entails(st, f_or([f_lin(i - j - 1), f_lin(j - i - 1)])):
                    return True
                edge = edge or i != j
    if apart and all(apart) and len(frozenset().union(*apart)) == 1:
        (i, j), = apart[0]
        if entails(st, f_or([f_lin(i - j - 1), f_lin(j - i - 1)])):
            return True
        edge = edge or i != j
    pair = frozenset((p.t, q.t))
    for k, dom in st.doms.items():
        if (
            k[0] == 'Orientation' and len(k) == 4
            and pair <= frozenset(k[1:]) and 'COLLINEAR' not in dom
            and len(pair) == 2
        ):
            return True
    return 'edge' if edge else False


def drawn(l):
    """Whether a coordinate is directly a result of a draw."""
    a = l.single()
    return a is not None and a[0] == 'd' and any(
        isinstance(t, str) and t in ('cCX', 'cCY') for t in a[1]
    )


def diffs(a, b):
    """Pairs of positions by which two coordinates differ (anti-unifier)."""
    out = set()
    return frozenset(out) if _diffs(a, b, out) else None


def _diffs(a, b, out):
    if a == b:
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        x, y = a.single(), b.single()
        if x is not None and y is not None and _diffs(x, y, out):
            return True
        return False
    if (
        not isinstance(a, tuple) or not isinstance(b, tuple)
        or len(a) != len(b) or not a
        or isinstance(a[0], str) and a[0] != b[0]
    ):
        return False
    if a[0] == 'd' and len(a) == 3 and a[1] == b[1]:
        i, j = (t if isinstance(t, Lin) else A(t) for t in (a[2], b[2]))
        x, y = i.single(), j.single()
        if (
            x is None or y is None or x[0] != 'd' or y[0] != 'd'
            or len(x) != 3 or len(y) != 3 or x[1] != y[1]
        ):
            out.add((i, j))
            return True
        return _diffs(x, y, out)
    return all([_diffs(x, y, out) for x, y in zip(a, b)])


def geo_attr(self, v, name, st, node):
    x = v.get(name)
    if x is not None:
        return [(st, x)]
    if v.kind == 'Contour' and name == 'segments':
        return self.call_ctx(
            CtxAttr(v.ctx, 'contour_segments'), [v], {}, st, node
        )
    if name in ('__class__',):
        return [(st, Lib('geo.' + v.kind))]
    return None


def call_ctx(self, fn, args, kw, st, node):
    n = fn.name
    if n in CTX_CLS:
        return self.mk_geo(CTX_CLS[n], fn.ctx, args, st, node)
    if any(isinstance(a, Un) for a in args):
        i = [k for k, a in enumerate(args) if isinstance(a, Un)][0]
        out = []
        for w in args[i].vs:
            b = list(args)
            b[i] = w
            out.extend(self.call_ctx(fn, b, kw, st.copy(), node))
        return out
    if any(isinstance(a, Bot) for a in args):
        return []
    if n == 'angle_orientation':
        return [(st, orientation(args, st))]
    if n in ('contour_segments',):
        out = []
        for s, q in self.as_seq(args[0].get('vertices'), st, node):
            out.append((s, self.alloc_list(s, edges(self, q, args[0], s), node)))
        return out
    if n == 'points_convex_hull':
        out = []
        for s, q in self.as_seq(args[0], st, node):
            w = self.weak_elem(q)
            ln = A(('nn', ('hull', q.sid)) + s.ictx)
            s.assume(f_lin(q.length() - ln))
            if ge(s, q.length(), ONE):
                s.assume(f_lin(ln - 1))
            if w.parts:
                p = w.parts[0]
                el = p.v if isinstance(p, Item) else p.tmpl
                ix = new_ix('hl')
                if isinstance(p, Span):
                    j = ('d', ('hullix', q.sid), A(ix))
                    el = vsubst(el, {p.ix: A(j)})
                parts = (Span(ix, ln, el),)
            else:
                parts = ()
            r = Seq(
                'list',
                parts,
                False,
                frozenset({'hull', 'ccw', 'unique'}),
                fresh_id('q'),
                q.subs | {q.sid},
                self.site(node),
            )
            out.append((s, self.alloc_list(s, r, node)))
        return out
    if n.endswith('_centroid') or n == 'centroid':
        x, y = (
            Sc(A(fresh('cn') + st.ictx), ARITH, ()),
            Sc(A(fresh('cn') + st.ictx), ARITH, ()),
        )
        return self.mk_geo('Point', fn.ctx, (x, y), st, node)
    if n in ('segments_relation',):
        return [
            (
                st,
                EnumVar(
                    'Relation',
                    ('Relation', args[0].t, args[1].t)
                    if all(isinstance(a, Geo) for a in args)
                    else ('Relation', fresh_id('r')),
                    1,
                ),
            )
        ]
    if n.startswith('locate_'):
        return [(st, EnumVar('Location', ('Location', fresh_id('lc')), 1))]
    if n in ('replace',):
        return [(st, Ctx(fn.ctx))]
    return [(st, Opq(fresh('ctx') + st.ictx, 'context.' + n))]


def orientation(args, st):
    """Contract: sign of the angle; antisymmetric in its arguments."""
    if all(isinstance(a, Geo) for a in args) and len(args) == 3:
        ts = [a.t for a in args]
        order = sorted(range(3), key=lambda i: repr(ts[i]))
        sign = 1
        inv = sum(
            1
            for i in range(3)
            for j in range(i + 1, 3)
            if order[i] > order[j]
        )
        if inv % 2:
            sign = -1
        if len({repr(t) for t in ts}) < 3:
            return Enum('Orientation', 'COLLINEAR')
        return EnumVar(
            'Orientation', ('Orientation',) + tuple(ts[i] for i in order),
            sign,
        )
    return EnumVar('Orientation', ('Orientation', fresh_id('or')), 1)


def edges(self, q, contour, st):
    ctx = contour.ctx

    def seg(a, b):
        return Geo(
            'Segment',
            ('sg', getattr(a, 't', None), getattr(b, 't', None)),
            (('start', a), ('end', b)),
            frozenset(['nondegenerate']),
            ctx,
            None,
        )

    it = q.items()
    keep = dict(
        kind='list',
        perm=False,
        sid=('edges', q.sid),
        tags=frozenset({'contour_edges'}),
        subs=frozenset(),
    )
    if it is not None and not q.perm:
        return q.replace(
            parts=tuple(
                Item(seg(it[i - 1], it[i])) for i in range(len(it))
            ),
            **keep
        )
    w = self.weak_elem(q)
    if not w.parts:
        return q.replace(parts=(), **keep)
    p = w.parts[0]
    ix = new_ix('eg')
    if isinstance(p, Span):
        prev = A(('d', ('prev', q.sid), A(ix)))
        parts = (
            Span(
                ix,
                p.n,
                seg(
                    vsubst(p.tmpl, {p.ix: prev}),
                    vsubst(p.tmpl, {p.ix: A(ix)}),
                ),
            ),
        )
    else:
        parts = (Span(ix, ONE, seg(p.v, p.v)),)
    return q.replace(parts=parts, **keep)


# ------------------------------------------------------------ pure helpers
def extreme(self, h, vals, st, node, key=None):
    """[(state, value)] of max/min over explicit values."""
    if all(int_of(v) is not None for v in vals):
        if key is None:
            return [
                (st, Int(simp_extreme(h, [int_of(v) for v in vals], st)))
            ]
    if all(isinstance(v, Sc) for v in vals) and key is None:
        return [(st, sc_extreme(h, vals))]
    if key is None and any(isinstance(v, (Bool, Un)) for v in vals):
        i = [k for k, v in enumerate(vals) if isinstance(v, (Bool, Un))][0]
        out = []
        if isinstance(vals[i], Un):
            alts = [(st.copy(), w) for w in vals[i].vs]
        else:
            alts = [
                (s, I(int(b))) for s, b in self.branch(st, vals[i], node)
            ]
        for s, w in alts:
            out.extend(
                extreme(self, h, vals[:i] + [w] + vals[i + 1:], s, node, key)
            )
        return out
    # pairwise comparison
    cur = [(st, vals[0])]
    for v in vals[1:]:
        nxt = []
        for s, best in cur:
            kb = [(s, best)] if key is None else self.call(
                key, [best], {}, s, node
            )
            for s1, x in kb:
                kv = [(s1, v)] if key is None else self.call(
                    key, [v], {}, s1, node
                )
                for s2, y in kv:
                    for s3, r in self.compare(
                        'Gt' if h == 'max' else 'Lt', y, x, s2, node
                    ):
                        for s4, b in self.branch(s3, r, node):
                            nxt.append((s4, v if b else best))
        cur = nxt
    return cur


def simp_extreme(h, ls, st):
    out = []
    for i, a in enumerate(ls):
        dom = False
        for j, b in enumerate(ls):
            if i == j:
                continue
            d = (b - a) if h == 'max' else (a - b)
            if d.const is not None:
                if d.const > 0 or (d.const == 0 and j < i):
                    dom = True
                    break
                continue
            if ge(st, d, ZERO) and not (
                j > i and ge(st, -d, ZERO)
            ):
                dom = True
                break
        if not dom:
            out.append(a)
    return mk_extreme(h, out or ls[:1])


def sc_extreme(h, vals):
    p = vals[0].prov
    exact = p.exact
    lo, hi = p.lo, p.hi
    for v in vals[1:]:
        q = v.prov
        exact = (
            None if exact is None or q.exact is None else exact | q.exact
        )
        if h == 'max':
            lo, hi = lo | q.lo, hi & q.hi
        else:
            lo, hi = lo & q.lo, hi | q.hi
    views = []
    for s, i in vals[0].views:
        idx = [i]
        for v in vals[1:]:
            d = dict(v.views)
            if s in d:
                idx.append(d[s])
        if len(idx) == len(vals) and SORTED.get(s):
            views.append((s, mk_extreme(h, idx)))
    return Sc(
        mk_extreme(h, [v.t for v in vals]), Prov(exact, lo, hi), tuple(views)
    )


def extreme_seq(self, h, q, st, node, key, default):
    """max/min over a sequence."""
    out = []
    n = q.length()
    if n.const == 0:
        if default is not None:
            return [(st, default)]
        self.raise_(st, Lib('builtins.ValueError'), node)
        return []
    it = q.items()
    if it is not None and len(it) <= 4 and not q.perm:
        return extreme(self, h, it, st, node, key)
    t = truth(st, f_lin(n - 1))
    if t is None:
        s2 = st.copy()
        if s2.assume(f_lin(-n)):
            if default is not None:
                out.append((s2, default))
            else:
                self.raise_(s2, Lib('builtins.ValueError'), node)
        if not st.assume(f_lin(n - 1)):
            return out
    elif t is False:
        if default is not None:
            return [(st, default)]
        self.raise_(st, Lib('builtins.ValueError'), node)
        return []
    w = self.weak_elem(q)
    p = w.parts[0]
    if isinstance(p, Item):
        return out + [(st, p.v)]
    j = A(fresh('arg' + h) + st.ictx)
    st.assume(f_lin(j))
    st.assume(f_lin(n - 1 - j))
    v = vsubst(p.tmpl, {p.ix: j})
    # universal fact: no element beats the chosen one
    ix = ('ix', fresh_id('mx'))
    e = vsubst(p.tmpl, {p.ix: A(ix)})
    ke = [(st, e)] if key is None else None
    if key is not None:
        s2 = st.copy()
        s2.ictx = st.ictx + (A(ix),)
        ke = self.call(key, [e], {}, s2, node)
        if len(ke) == 1:
            s3 = st.copy()
            kv = self.call(key, [v], {}, s3, node)
            if len(kv) == 1:
                a, b = ke[0][1], kv[0][1]
                rel = le_fact(self, h, a, b, st)
                if rel is not None:
                    st.assume(rel)
    else:
        rel = le_fact(self, h, e, v, st)
        if rel is not None:
            st.assume(rel)
    return out + [(st, v)]


def le_fact(self, h, a, b, st):
    if isinstance(a, Sc) and isinstance(b, Sc):
        return self.sc_cmp('LtE' if h == 'max' else 'GtE', a, b, st)
    la, lb = int_of(a), int_of(b)
    if la is not None and lb is not None:
        return f_lin(lb - la) if h == 'max' else f_lin(la - lb)
    return None


def quantify(self, q, st, conj):
    """Formula of all()/any() over a sequence of truth values."""
    fs = []
    for p in q.parts:
        v = p.v if isinstance(p, Item) else p.tmpl
        if isinstance(v, Un):
            return None
        f = self.to_formula(v, st)
        if f is None:
            return None
        if isinstance(p, Span):
            if conj:
                f = T if f == T else ('all', p.ix, p.n, f)
                if f != T and f[3] == F:
                    f = f_lin(-p.n)
            else:
                f = F if f == F else ('ex', p.ix, p.n, f)
                if f != F and f[3] == T:
                    f = f_lin(p.n - 1)
        fs.append(f)
    return f_and(fs) if conj else f_or(fs)


def zip_seqs(self, items, st, node):
    """items: Seq or ('rep', v); pairs them positionally."""
    seqs = [x for x in items if isinstance(x, Seq)]
    if not seqs:
        return None
    its = [x.items() for x in seqs]
    if all(i is not None for i in its) and not any(x.perm for x in seqs):
        n = min(len(i) for i in its)
        rows = []
        for k in range(n):
            row = []
            z = iter(its)
            for x in items:
                row.append(next(z)[k] if isinstance(x, Seq) else x[1])
            rows.append(self.mk_tuple(row))
        return self.mk_tuple(rows, 'iter')
    if len(seqs) == 1:
        q = seqs[0]

        def tup(e):
            return self.mk_tuple(
                [e if isinstance(x, Seq) else x[1] for x in items]
            )

        return q.replace(
            kind='iter',
            parts=tuple(
                Item(tup(p.v))
                if isinstance(p, Item)
                else Span(p.ix, p.n, tup(p.tmpl))
                for p in q.parts
            ),
            sid=fresh_id('q'),
            tags=q.tags & {'unordered'},
            subs=frozenset(),
        )
    if all(
        len(x.parts) == 1 and isinstance(x.parts[0], Span) for x in seqs
    ):
        ix = new_ix('zp')
        n = simp_extreme('min', [x.length() for x in seqs], st)
        row = [
            vsubst(x.parts[0].tmpl, {x.parts[0].ix: A(ix)})
            if isinstance(x, Seq)
            else x[1]
            for x in items
        ]
        return Seq(
            'iter',
            (Span(ix, n, self.mk_tuple(row)),),
            False,
            frozenset(),
            fresh_id('q'),
            frozenset(),
            None,
        )
    ws = []
    for x in items:
        if isinstance(x, Seq):
            if not x.parts:
                return self.mk_tuple((), 'iter')
            ws.append(self.weak_elem(x))
        else:
            ws.append(x)
    ix = new_ix('zp')
    n = simp_extreme('min', [x.length() for x in seqs], st)
    row = []
    for w in ws:
        if isinstance(w, Seq):
            p = w.parts[0]
            row.append(
                p.v
                if isinstance(p, Item)
                else vsubst(p.tmpl, {p.ix: A(ix)})
            )
        else:
            row.append(w[1])
    return Seq(
        'iter',
        (Span(ix, n, self.mk_tuple(row)),),
        False,
        frozenset(),
        fresh_id('q'),
        frozenset(),
        None,
    )


def map_seq(self, q, fn, st, node, split=False):
    """Apply fn to every element (order kept): [(state, Seq)]."""
    acc = self.alloc(
        st, 'list', self.mk_tuple((), 'list').replace(site=self.site(node)),
        node,
    )
    mark = len(self.temps)
    self.temps.append(acc)

    cell = {}

    def body(s):
        v = cell['v']
        outs = []
        for s2, r in self.call(fn, [v], {}, s, node):
            self.append_to(acc, r, s2, node)
            outs.append((None, s2, None))
        return outs

    outs = self.loop_parts_fn(node, q, cell, body, st)
    del self.temps[mark:]
    res = []
    for ctl, s, v in outs:
        for s2, r in self.as_seq(acc, s, node):
            for h in acc.ids:
                s2.heap.pop(h, None)
            res.append((s2, r))
    return res


def const_text(v):
    """Constant parts of a message value, else None."""
    if isinstance(v, Const) and isinstance(v.v, str):
        return v.v
    if isinstance(v, LibObj) and v.kind == 'str':
        out = []
        for x in v.data:
            t = const_text(x)
            out.append('\0' if t is None else t)
        return ''.join(out) if v.data else None
    return None


def warn_entry(msg, cat):
    """(category path, constant text) of a warnings.warn call."""
    if isinstance(msg, LibObj) and msg.kind == 'exc':
        cat = msg.data[0] if msg.data else None
        msg = msg.data[1] if len(msg.data) > 1 else None
    if cat is None:
        c = 'builtins.UserWarning'
    elif isinstance(cat, Lib):
        c = cat.path
    else:
        c = None
    return (c, const_text(msg))


# ----------------------------------------------------------------- library
def call_lib(self, fn, args, kw, st, node):
    path = fn.path
    if any(isinstance(a, Bot) for a in args):
        return []
    if path.startswith('builtins.'):
        return call_builtin(self, path[9:], args, kw, st, node)
    name = path.rpartition('.')[2]
    if path.startswith('hypothesis.strategies'):
        return call_strategy(self, name, args, kw, st, node)
    if path.startswith('hypothesis.'):
        if name == 'assume':
            return [
                (s, NONE)
                for s, b in self.branch(st, args[0], node)
                if b
            ]
        if name == 'reject':
            return []
        return [(st, LibObj('hyp', fresh_id('hy'), (fn,)))]
    if path == 'warnings.warn':
        cat = args[1] if len(args) > 1 else kw.get('category')
        msg = args[0] if args else kw.get('message')
        self.event('warn', node, st, msg=msg, cat=cat)
        w = warn_entry(msg, cat)
        old = st.ghost.get('warns')
        if old is not None:
            st = st.copy()
            st.ghost['warns'] = frozenset(
                o + (w,) if len(o) < 12 else o for o in old
            )
        return [(st, NONE)]
    if path.startswith('warnings.'):
        self.event('global', node, st, what=path)
        return [(st, Opq(fresh_id('w')))]
    if path.startswith('itertools.'):
        return call_itertools(self, path[10:], args, kw, st, node)
    if path.startswith('functools.'):
        if name == 'partial':
            return [
                (
                    st,
                    Partial(
                        args[0], tuple(args[1:]), tuple(sorted(
                            kw.items(), key=lambda p: p[0]))
                    ),
                )
            ]
        if name == 'reduce':
            return call_reduce(self, args, st, node)
        if name in ('lru_cache', 'cache', 'wraps'):
            if args and isinstance(args[0], Fn) and name != 'wraps':
                return [(st, args[0])]
            return [(st, Composed('identity', ()))]
    if path.startswith('operator.'):
        return call_operator(self, name, args, kw, st, node)
    if path.startswith('math.'):
        return call_math(self, name, args, st, node)
    if path.startswith('collections.abc') or path.startswith('typing'):
        if name == 'cast':
            return [(st, args[1])]
        return [(st, Opq(fresh_id('ty'), path))]
    if path.startswith('collections.'):
        if name == 'deque':
            q = args[0] if args else self.mk_tuple(())
            mx = args[1] if len(args) > 1 else kw.get('maxlen')
            out = []
            for s, r in self.as_seq(q, st, node, consume=True):
                if mx is not None and int_of(mx) is not None:
                    k = int_of(mx)
                    n = simp_extreme('min', [r.length(), k], s)
                    w = self.weak_elem(r)
                    if w.parts:
                        p = w.parts[0]
                        tm = (
                            p.v
                            if isinstance(p, Item)
                            else vsubst(
                                p.tmpl,
                                {p.ix: A(('d', ('dq', r.sid), A(p.ix)))},
                            )
                        )
                        r = w.replace(
                            parts=(
                                Span(
                                    p.ix
                                    if isinstance(p, Span)
                                    else new_ix(),
                                    n,
                                    tm,
                                ),
                            )
                        )
                out.append((s, self.alloc(s, 'deque', r, node)))
            return out
        if name in ('OrderedDict', 'defaultdict', 'Counter'):
            hid = fresh_id('h')
            st.heap[hid] = H.HDict(
                (), BOT, BOT, self.phase, False, self.site(node)
            )
            return [(st, Ref(frozenset([hid])))]
    if path.startswith('bentley_ottmann.'):
        return call_bo(self, name, args, kw, st, node)
    if path.startswith('dendroid.'):
        if name in ('set_', 'map_'):
            q = self.mk_tuple(args)
            star = []
            parts = []
            for a in args:
                if isinstance(a, tuple) and a and a[0] == '*':
                    parts.extend(a[1].parts)
                else:
                    parts.append(Item(a))
            r = self.mk_tuple(()).replace(parts=tuple(parts))
            if len(parts) > 1:
                r = self.weak_elem(r)
            if 'key' in kw and len(r.parts):
                p = r.parts[0]
                e = p.v if isinstance(p, Item) else p.tmpl
                s2 = st.copy()
                for s3, _ in self.call(kw['key'], [e], {}, s2, node):
                    pass
            return [(st, self.alloc(st, 'redblack', r, node))]
    if path.startswith('decision.'):
        # coin_change: a partition of the amount into given denominators
        amount = int_of(args[0])
        out = []
        for s, q in self.as_seq(args[1], st, node):
            vals = [int_of(x) for x in (q.items() or [])]
            n = self.nn_atom(s)
            if amount is not None:
                s.assume(f_lin(amount - n))
            ix = new_ix('cc')
            e = ('d', (fresh_id('cc'),), A(ix))
            if vals and all(v is not None for v in vals):
                lo = simp_extreme('min', vals, s)
                hi = simp_extreme('max', vals, s)
                s.assume(f_lin(A(e) - lo))
                s.assume(f_lin(hi - A(e)))
            r = Seq(
                'tuple',
                (Span(ix, n, Int(A(e))),),
                False,
                frozenset(),
                fresh_id('q'),
                frozenset(),
                None,
            )
            out.append((s, r))
        return out
    if path.startswith('locus.'):
        return [(st, LibObj('tree', fresh_id('tr'), tuple(args)))]
    if path.startswith('reprit.'):
        return [(st, Composed('repr', ()))]
    if path.startswith('enum.'):
        return [(st, args[0] if args else Opq(fresh_id('en')))]
    if path.startswith('copy.'):
        out = []
        if args and isinstance(args[0], Ref):
            for s, q in self.as_seq(args[0], st, node):
                out.append((s, self.rewrap(args[0], q, s, node)))
            return out
        return [(st, args[0])]
    if path.startswith('random.Random') and name == 'Random':
        self.event('nondet' if not args else 'seeded', node, st, what=path)
        return [(st, LibObj('random', fresh_id('rn')))]
    if any(path.startswith(p) for p in NONDET):
        self.event('nondet', node, st, what=path)
        r = Opq(fresh('nd') + st.ictx, path)
        if name in ('choice',) and args:
            return self.choose(args[0], st, node)
        if name == 'shuffle' and args:
            shuffle(self, args[0], st, node)
            return [(st, NONE)]
        return [(st, r)]
    if path.startswith('ground.'):
        if name in ('get_context', 'set_context'):
            if name == 'set_context':
                self.event('global', node, st, what=path)
                return [(st, NONE)]
            return [(st, Ctx('default'))]
        if name == 'Context':
            return [(st, Ctx(fresh_id('newctx')))]
        return [(st, Opq(fresh('gr') + st.ictx, path))]
    return [(st, Opq(fresh('lib') + st.ictx, path))]


def shuffle(self, ref, st, node):
    def f(q):
        if q.perm:
            q = self.weak_elem(q)
        return q.replace(
            perm=True,
            sid=fresh_id('q'),
            tags=q.tags & {'unique'},
            subs=q.subs | {q.sid},
        )

    self.mutate(ref, f, st, node)


def call_bo(self, name, args, kw, st, node):
    out = []
    for s, q in self.as_seq(args[0], st, node):
        out.append((s, Bool(('lit', ('bo', name, q.sid)))))
    return out


def call_math(self, name, args, st, node):
    l = int_of(args[0]) if args else None
    if name in ('ceil', 'floor', 'trunc') and l is not None:
        return [(st, Int(l))]
    if l is not None and l.const is not None and name == 'isqrt':
        return [(st, I(_math.isqrt(l.const)))]
    if name in ('isqrt', 'gcd', 'lcm', 'factorial', 'comb'):
        a = A(fresh('mi') + st.ictx)
        st.assume(f_lin(a))
        if name == 'isqrt' and l is not None:
            st.assume(f_lin(l - a))
        return [(st, Int(a))]
    return [(st, LibObj('float', fresh('fl') + st.ictx))]


def call_operator(self, name, args, kw, st, node):
    bi = {
        'add': 'Add', 'sub': 'Sub', 'mul': 'Mult', 'floordiv': 'FloorDiv',
        'mod': 'Mod', 'or_': 'BitOr', 'and_': 'BitAnd', 'xor': 'BitXor',
        'concat': 'Add', 'pow': 'Pow', 'truediv': 'Div',
        'lshift': 'LShift', 'rshift': 'RShift',
    }
    cm = {
        'lt': 'Lt', 'le': 'LtE', 'gt': 'Gt', 'ge': 'GtE', 'eq': 'Eq',
        'ne': 'NotEq', 'is_': 'Is', 'is_not': 'IsNot',
    }
    if name in bi:
        return self.binop(bi[name], args[0], args[1], st, node)
    if name in cm:
        return self.compare(cm[name], args[0], args[1], st, node)
    if name == 'contains':
        return self.contains(args[0], args[1], st, node)
    if name == 'not_':
        return self.unary('Not', args[0], st, node)
    if name == 'neg':
        return self.unary('USub', args[0], st, node)
    if name == 'getitem':
        return self.get_item(args[0], args[1], st, node)
    if name in ('itemgetter', 'attrgetter', 'methodcaller'):
        return [(st, Composed(name, tuple(args)))]
    return [(st, Opq(fresh('op') + st.ictx, 'operator.' + name))]


def call_composed(self, fn, args, kw, st, node):
    if fn.op == 'itemgetter':
        cur = [(st, [])]
        for i in fn.args:
            cur = [
                (s2, vs + [v])
                for s, vs in cur
                for s2, v in self.get_item(args[0], i, s, node)
            ]
        return [
            (s, vs[0] if len(vs) == 1 else self.mk_tuple(vs))
            for s, vs in cur
        ]
    if fn.op == 'attrgetter':
        cur = [(st, [])]
        for i in fn.args:
            nxt = []
            for s, vs in cur:
                vals = [(s, args[0])]
                for part in i.v.split('.'):
                    vals = [
                        y
                        for s2, v in vals
                        for y in self.getattr(v, part, s2, node)
                    ]
                nxt += [(s2, vs + [v]) for s2, v in vals]
            cur = nxt
        return [
            (s, vs[0] if len(vs) == 1 else self.mk_tuple(vs))
            for s, vs in cur
        ]
    if fn.op == 'methodcaller':
        out = []
        for s, m in self.getattr(args[0], fn.args[0].v, st, node):
            out.extend(self.call(m, list(fn.args[1:]), {}, s, node))
        return out
    if fn.op == 'composite':
        return [
            (
                st,
                Strat(
                    'composite',
                    (fn.args[0],) + tuple(args),
                    tuple(sorted(kw.items(), key=lambda p: p[0])),
                    self.site(node),
                ),
            )
        ]
    if fn.op == 'identity':
        return [(st, args[0])]
    if fn.op == 'starcall':
        return self.call(fn.args[0], [('*', args[0])], {}, st, node)
    if fn.op == 'bound':
        return self.call(fn.args[0], list(fn.args[1:]) + args, kw, st, node)
    return [(st, Opq(fresh('co') + st.ictx, fn.op))]


def call_reduce(self, args, st, node):
    fn, it = args[0], args[1]
    out = []
    for s, q in self.as_seq(it, st, node, consume=True):
        items = q.items()
        if items is None:
            init = args[2:3] or []
            w = self.weak_elem(q)
            if not w.parts:
                if init:
                    out.append((s, init[0]))
                continue
            p = w.parts[0]
            first = init[0] if init else vsubst(p.tmpl, {p.ix: ZERO})
            e = vsubst(p.tmpl, {p.ix: A(fresh('rd') + s.ictx)})
            acc = first
            for _ in range(3):
                rs = self.call(fn, [acc, e], {}, s, node)
                s, r = self.join_outs(rs)
                acc = self.join_vals(acc, r)
            out.append((s, acc))
            continue
        items = list(args[2:3]) + items
        if not items:
            self.raise_(s, Lib('builtins.TypeError'), node)
            continue
        cur = [(s, items[0])]
        for x in items[1:]:
            cur = [
                (s3, r)
                for s2, a in cur
                for s3, r in self.call(fn, [a, x], {}, s2, node)
            ]
        out.extend(cur)
    return out


def concat(self, qs):
    parts = []
    used = set()
    tags = frozenset()
    for q in qs:
        if 'unordered' in q.tags:
            tags = frozenset({'unordered'})
        if q.perm:
            q = self.weak_elem(q)
        for p in q.parts:
            if isinstance(p, Span):
                if p.ix in used:
                    ix = new_ix()
                    p = Span(ix, p.n, vsubst(p.tmpl, {p.ix: A(ix)}))
                used.add(p.ix)
            parts.append(p)
    if len(qs) == 1:
        return qs[0].replace(kind='iter', perm=False)
    return self.mk_tuple((), 'iter').replace(parts=tuple(parts), tags=tags)


def call_itertools(self, name, args, kw, st, node):
    if name == 'chain':
        outs = [(st, [])]
        for a in args:
            if isinstance(a, tuple) and a and a[0] == '*':
                w = self.weak_elem(a[1])
                el = w.parts[0] if w.parts else None
                if el is None:
                    continue
                e = el.v if isinstance(el, Item) else el.tmpl
                outs = [
                    (s2, qs + [flat_span(self, w, q, s2)])
                    for s, qs in outs
                    for s2, q in self.as_seq(e, s, node)
                ]
                continue
            outs = [
                (s2, qs + [q])
                for s, qs in outs
                for s2, q in self.as_seq(a, s, node, consume=True)
            ]
        return [
            (s, self.to_iter(concat(self, qs), s, node)) for s, qs in outs
        ]
    if name == 'chain.from_iterable':
        out = []
        for s, q in self.as_seq(args[0], st, node, consume=True):
            it = q.items()
            if it is not None:
                cur = [(s, [])]
                for x in it:
                    cur = [
                        (s3, qs + [r])
                        for s2, qs in cur
                        for s3, r in self.as_seq(x, s2, node)
                    ]
                out.extend(
                    (s2, self.to_iter(concat(self, qs), s2, node))
                    for s2, qs in cur
                )
                continue
            w = self.weak_elem(q)
            if not w.parts:
                out.append((s, self.to_iter(self.mk_tuple(()), s, node)))
                continue
            p = w.parts[0]
            e = p.v if isinstance(p, Item) else p.tmpl
            for s2, r in self.as_seq(e, s, node):
                out.append(
                    (s2, self.to_iter(flat_span(self, w, r, s2), s2, node))
                )
        return out
    if name == 'repeat':
        if len(args) == 1 and 'times' not in kw:
            return [(st, Composed('repeat1', (args[0],)))]
        n = args[1] if len(args) > 1 else kw['times']
        out = []
        for s, l in self.to_ints(n, st, node):
            if not ge(s, l, ZERO):
                l = simp_extreme('max', [l, ZERO], s)
            out.append(
                (
                    s,
                    self.to_iter(
                        self.mk_span('iter', l, args[0]), s, node
                    ),
                )
            )
        return out
    if name == 'cycle':
        return [(st, Composed('cycle', (args[0],)))]
    if name == 'count':
        return [(st, Composed('count', tuple(args)))]
    if name == 'accumulate':
        out = []
        for s, q in self.as_seq(args[0], st, node, consume=True):
            r = accumulate(self, q, s)
            out.append((s, self.to_iter(r, s, node)))
        return out
    if name == 'groupby':
        key = args[1] if len(args) > 1 else kw.get('key')
        out = []
        for s, q in self.as_seq(args[0], st, node, consume=True):
            w = self.weak_elem(q)
            if not w.parts:
                out.append((s, self.to_iter(self.mk_tuple(()), s, node)))
                continue
            n = self.nn_atom(s)
            s.assume(f_lin(q.length() - n))
            if ge(s, q.length(), ONE):
                s.assume(f_lin(n - 1))
            p = w.parts[0]
            e = p.v if isinstance(p, Item) else p.tmpl
            ix = new_ix('gb')
            jx = new_ix('gi')
            m = A(('nn', (fresh_id('gl'),), A(ix)))
            if isinstance(p, Span):
                e = vsubst(
                    e,
                    {
                        p.ix: A(
                            ('d', ('grp', w.sid), A(ix), A(jx))
                        )
                    },
                )
            s.assume(f_lin(m - 1))
            grp = Seq(
                'iter', (Span(jx, m, e),), False, frozenset(),
                ('grp', w.sid, A(ix)), frozenset([q.sid]), None,
            )
            if key is None:
                kouts = [(s, vsubst(e, {jx: ZERO}))]
            else:
                s.ictx = s.ictx + (A(ix),)
                kouts = []
                for s2, kv in self.call(
                    key, [vsubst(e, {jx: ZERO})], {}, s, node
                ):
                    s2.ictx = s2.ictx[:-1]
                    kouts.append((s2, kv))
            for s2, kv in kouts:
                r = Seq(
                    'iter',
                    (Span(ix, n, self.mk_tuple([kv, grp])),),
                    False,
                    frozenset(),
                    fresh_id('q'),
                    frozenset(),
                    None,
                )
                out.append((s2, self.to_iter(r, s2, node)))
        return out
    if name == 'pairwise':
        out = []
        for s, q in self.as_seq(args[0], st, node, consume=True):
            out.append((s, self.to_iter(pairs_of(self, q, s), s, node)))
        return out
    if name == 'islice':
        out = []
        if isinstance(args[0], Composed):
            v = args[0]
            if v.op == 'repeat1':
                return call_itertools(
                    self, 'repeat', [v.args[0], args[1]], {}, st, node
                )
            if v.op == 'cycle':
                for s, q in self.as_seq(v.args[0], st, node):
                    w = self.weak_elem(q)
                    n = self.nn_atom(s)
                    if not w.parts:
                        out.append((s, self.mk_tuple(())))
                        continue
                    p = w.parts[0]
                    ix = new_ix('cy')
                    e = p.v if isinstance(p, Item) else vsubst(
                        p.tmpl,
                        {p.ix: A(('d', (fresh_id('cyc'),), A(ix)))},
                    )
                    out.append(
                        (
                            s,
                            self.to_iter(
                                self.mk_span('iter', n, e), s, node
                            ),
                        )
                    )
                return out
        lo = args[1] if len(args) > 2 else NONE
        hi = args[2] if len(args) > 2 else args[1]
        step = args[3] if len(args) > 3 else NONE
        for s, q in self.as_seq(args[0], st, node, consume=True):
            for s2, r in self.slice_seq(q, lo, hi, step, s, node):
                for s3, r2 in self.as_seq(r, s2, node):
                    out.append((s3, self.to_iter(r2, s3, node)))
        return out
    if name in ('starmap',):
        out = []
        for s, q in self.as_seq(args[1], st, node, consume=True):
            fnv = Composed('starcall', (args[0],))
            for s2, r in map_seq(self, q, fnv, s, node):
                out.append((s2, self.to_iter(r, s2, node)))
        return out
    if name in ('product', 'combinations', 'permutations'):
        n = self.nn_atom(st)
        els = []
        cur = [(st, [])]
        src = args if name == 'product' else [args[0]] * (
            int_of(args[1]).const if len(args) > 1 else 1
        )
        for a in src:
            cur = [
                (s2, vs + [q])
                for s, vs in cur
                for s2, q in self.as_seq(a, s, node)
            ]
        out = []
        for s, qs in cur:
            ix = new_ix('pr')
            row = []
            for q in qs:
                w = self.weak_elem(q)
                if not w.parts:
                    row = None
                    break
                p = w.parts[0]
                row.append(
                    p.v
                    if isinstance(p, Item)
                    else vsubst(
                        p.tmpl, {p.ix: A(('d', (fresh_id('pi'),), A(ix)))}
                    )
                )
            r = (
                self.mk_tuple(())
                if row is None
                else self.mk_tuple(()).replace(
                    parts=(Span(ix, n, self.mk_tuple(row)),)
                )
            )
            out.append((s, self.to_iter(r, s, node)))
        return out
    if name in ('filterfalse', 'takewhile', 'dropwhile', 'compress'):
        src = args[0] if name == 'compress' else args[1]
        out = []
        for s, q in self.as_seq(src, st, node, consume=True):
            n = self.nn_atom(s)
            s.assume(f_lin(q.length() - n))
            out.append(
                (s, self.to_iter(self.weak_elem(q, n, s), s, node))
            )
        return out
    if name == 'tee':
        out = []
        for s, q in self.as_seq(args[0], st, node, consume=True):
            k = 2
            out.append(
                (
                    s,
                    self.mk_tuple(
                        [self.to_iter(q, s, node) for _ in range(k)]
                    ),
                )
            )
        return out
    self.undecided(node, 'itertools.' + name)


def accumulate(self, q, st):
    els = q.items()
    ix = new_ix('ac')
    # prefix sums of non-negative integers: between 0 and the total
    nonneg = all(
        int_of(e) is not None for e in seq_elems(q)
    )
    at = ('d', (fresh_id('acc'),), A(ix))
    if nonneg:
        for e in seq_elems(q):
            if not ge(st, int_of(e), ZERO):
                nonneg = False
        if nonneg:
            st.assume(f_lin(A(at)))
    n = q.length()
    return Seq(
        'iter', (Span(ix, n, Int(A(at))),), False, frozenset(),
        fresh_id('q'), frozenset(), None,
    )


def flat_span(self, w, q, st):
    """Concatenation of a family of sequences."""
    el = self.weak_elem(q)
    if not el.parts:
        return self.mk_tuple((), 'iter')
    p = el.parts[0]
    e = p.v if isinstance(p, Item) else p.tmpl
    wp = w.parts[0]
    n = A(('nn', ('flat', w.sid)) + st.ictx)
    ix = new_ix('fl')
    m = {}
    if isinstance(wp, Span):
        m[wp.ix] = A(('d', ('fo', w.sid), A(ix)))
    if isinstance(p, Span):
        m[p.ix] = A(('d', ('fi', w.sid), A(ix)))
    return Seq(
        'iter', (Span(ix, n, vsubst(e, m)),), False, frozenset(),
        ('flat', w.sid, q.sid), frozenset(), None,
    )


def pairs_of(self, q, st):
    it = q.items()
    if it is not None and not q.perm:
        return self.mk_tuple(
            [self.mk_tuple([a, b]) for a, b in zip(it, it[1:])], 'iter'
        )
    if len(q.parts) == 1 and isinstance(q.parts[0], Span) and not q.perm:
        p = q.parts[0]
        n = p.n - 1
        if not ge(st, n, ZERO):
            n = simp_extreme('max', [n, ZERO], st)
        ix = new_ix('pw')
        a = vsubst(p.tmpl, {p.ix: A(ix)})
        b = vsubst(p.tmpl, {p.ix: A(ix) + 1})
        return Seq(
            'iter', (Span(ix, n, self.mk_tuple([a, b])),), False,
            frozenset(), fresh_id('q'), frozenset(), None,
        )
    w = self.weak_elem(q)
    n = self.nn_atom(st)
    st.assume(f_lin(q.length() - n))
    p = w.parts[0]
    ix = new_ix('pw')
    return Seq(
        'iter',
        (
            Span(
                ix,
                n,
                self.mk_tuple(
                    [
                        vsubst(p.tmpl, {p.ix: A(ix)}),
                        vsubst(p.tmpl, {p.ix: A(ix) + 1}),
                    ]
                ),
            ),
        ),
        False, frozenset(), fresh_id('q'), frozenset(), None,
    )


def to_ints(self, v, st, node):
    """[(state, Lin)]"""
    if isinstance(v, Un):
        return [
            y
            for w in v.vs
            for y in self.to_ints(w, st.copy(), node)
        ]
    if isinstance(v, Bool):
        return [
            (s, L(int(b))) for s, b in self.branch(st, v, node)
        ]
    l = int_of(v)
    if l is not None:
        return [(st, l)]
    if isinstance(v, Opq) or isinstance(v, LibObj):
        return [(st, A(('d', ('oi', v.t))))]
    if isinstance(v, Sc):
        return [(st, A(('d', ('oi', ('sc', v.t)))))]
    self.raise_(st, Lib('builtins.TypeError'), node)
    return []


# ---------------------------------------------------------------- builtins
def call_builtin(self, name, args, kw, st, node):
    if args and isinstance(args[0], Un) and name not in (
        'print', 'locals'
    ):
        out = []
        for w in args[0].vs:
            out.extend(
                call_builtin(
                    self, name, [w] + list(args[1:]), kw, st.copy(), node
                )
            )
        return out
    if name == 'len':
        v = args[0]
        if isinstance(v, Ref):
            o = st.heap.get(next(iter(v.ids)))
            if isinstance(o, H.HDict):
                if isinstance(o.sk, Bot):
                    return [(st, I(len(o.items)))]
                return [(st, Int(self.nn_atom(st)))]
            if isinstance(o, H.HIter):
                self.raise_(st, Lib('builtins.TypeError'), node)
                return []
        return [
            (s, Int(q.length())) for s, q in self.as_seq(v, st, node)
        ]
    if name == 'range':
        return mk_range(self, args, st, node)
    if name == 'sorted':
        return do_sorted(
            self, args[0], kw.get('key'), kw.get('reverse'), st, node
        )
    if name in ('max', 'min'):
        key = kw.get('key')
        if isinstance(key, Const):
            key = None
        default = kw.get('default')
        if len(args) == 1:
            out = []
            for s, q in self.as_seq(args[0], st, node, consume=True):
                out.extend(
                    extreme_seq(self, name, q, s, node, key, default)
                )
            return out
        return extreme(self, name, list(args), st, node, key)
    if name == 'sum':
        out = []
        for s, q in self.as_seq(args[0], st, node, consume=True):
            t = seq_sum(q)
            if t is None:
                it = q.items()
                if it is not None:
                    cur = [(s, args[1] if len(args) > 1 else I(0))]
                    for x in it:
                        cur = [
                            y
                            for s2, a in cur
                            for y in self.binop('Add', a, x, s2, node)
                        ]
                    out.extend(cur)
                    continue
                els = seq_elems(q)
                if all(isinstance(e, (Bool, Const)) for e in els):
                    a = self.nn_atom(s)
                    s.assume(f_lin(q.length() - a))
                    out.append((s, Int(a)))
                    continue
                if els and isinstance(els[0], Sc):
                    out.append(
                        (s, Sc(A(fresh('sm') + s.ictx), ARITH, ()))
                    )
                    continue
                out.append((s, Opq(fresh('sum') + s.ictx)))
                continue
            if len(args) > 1 and int_of(args[1]) is not None:
                t = t + int_of(args[1])
            sum_facts(self, q, t, s)
            out.append((s, Int(t)))
        return out
    if name in ('any', 'all'):
        out = []
        for s, q in self.as_seq(args[0], st, node, consume=True):
            f = quantify(self, q, s, name == 'all')
            out.append((s, opq_bool() if f is None else as_bool(f)))
        return out
    if name in ('list', 'tuple', 'set', 'frozenset'):
        if not args:
            q = self.mk_tuple((), name)
            return [
                (st, q if name == 'tuple' else self.alloc(st, name, q, node))
            ]
        out = []
        for s, q in self.as_seq(args[0], st, node, consume=True):
            if name in ('set', 'frozenset'):
                q2 = q.replace(
                    kind=name,
                    sid=fresh_id('q'),
                    perm=False,
                    tags=q.tags & {'unique', 'unordered'},
                    subs=q.subs | {q.sid},
                )
                out.append((s, self.alloc(s, name, q2, node)))
            elif name == 'tuple':
                out.append((s, q.replace(kind='tuple')))
            else:
                out.append((s, self.alloc(s, 'list', q, node)))
        return out
    if name == 'dict':
        if not args:
            hid = fresh_id('h')
            st.heap[hid] = H.HDict(
                tuple((Const(k), v) for k, v in kw.items()),
                BOT, BOT, self.phase, False, self.site(node),
            )
            return [(st, Ref(frozenset([hid])))]
        out = []
        for s, q in self.as_seq(args[0], st, node):
            sk = sv = BOT
            items = []
            for e in seq_elems(q):
                if isinstance(e, Seq) and e.items() and len(e.items()) == 2:
                    k, v = e.items()
                    sk, sv = wjoin(sk, weaken(k, s)), wjoin(sv, weaken(v, s))
                else:
                    sk = sv = Opq(fresh_id('dk'))
            hid = fresh_id('h')
            s.heap[hid] = H.HDict(
                tuple(items), sk, sv, self.phase, False, self.site(node)
            )
            out.append((s, Ref(frozenset([hid]))))
        return out
    if name == 'iter':
        v = args[0]
        if isinstance(v, Composed):
            return [(st, v)]
        if isinstance(v, Ref) and isinstance(
            st.heap.get(next(iter(v.ids))), H.HIter
        ):
            return [(st, v)]
        return [
            (s, self.to_iter(q, s, node)) for s, q in self.as_seq(v, st, node)
        ]
    if name == 'next':
        return do_next(self, args, st, node)
    if name == 'reversed':
        return [
            (s, self.to_iter(self.reverse_seq(q), s, node))
            for s, q in self.as_seq(args[0], st, node)
        ]
    if name == 'enumerate':
        start = args[1] if len(args) > 1 else kw.get('start', I(0))
        out = []
        for s, q in self.as_seq(args[0], st, node, consume=True):
            out.append((s, enum_seq(self, q, int_of(start) or ZERO)))
        return out
    if name == 'zip':
        return do_zip(self, args, kw, st, node)
    if name == 'map':
        if len(args) == 2:
            out = []
            for s, q in self.as_seq(args[1], st, node, consume=True):
                for s2, r in map_seq(self, q, args[0], s, node):
                    out.append((s2, self.to_iter(r, s2, node)))
            return out
        out = []
        for s, z in do_zip(self, args[1:], {}, st, node):
            for s2, q in self.as_seq(z, s, node, consume=True):
                for s3, r in map_seq(
                    self, q, Composed('starcall', (args[0],)), s2, node
                ):
                    out.append((s3, self.to_iter(r, s3, node)))
        return out
    if name == 'filter':
        out = []
        for s, q in self.as_seq(args[1], st, node, consume=True):
            w = self.weak_elem(q)
            if w.parts and not isinstance(args[0], Const):
                p = w.parts[0]
                e = p.v if isinstance(p, Item) else vsubst(
                    p.tmpl, {p.ix: A(fresh('fe') + s.ictx)}
                )
                rs = self.call(args[0], [e], {}, s.copy(), node)
            n = self.nn_atom(s)
            s.assume(f_lin(q.length() - n))
            r = self.weak_elem(q, n, s)
            out.append(
                (
                    s,
                    self.to_iter(
                        r.replace(
                            tags=q.tags & {'unique', 'unordered'},
                            subs=q.subs | {q.sid},
                        ),
                        s,
                        node,
                    ),
                )
            )
        return out
    if name == 'isinstance':
        return [(st, isinstance_(self, args[0], args[1], st))]
    if name == 'bool':
        if not args:
            return [(st, FALSE)]
        f = self.to_formula(args[0], st)
        if f is None:
            return [(s, Const(b)) for s, b in self.branch(st, args[0], node)]
        return [(st, as_bool(f))]
    if name == 'int':
        return [(s, Int(l)) for s, l in self.to_ints(args[0], st, node)]
    if name == 'abs':
        l = int_of(args[0])
        if l is not None:
            return [(st, Int(simp_extreme('max', [l, -l], st)))]
        if isinstance(args[0], Sc):
            return [(st, Sc(A(fresh('ab') + st.ictx), ARITH, ()))]
        return [(st, LibObj('float', fresh('f')))]
    if name == 'divmod':
        out = []
        for s, q in self.binop('FloorDiv', args[0], args[1], st, node):
            for s2, r in self.binop('Mod', args[0], args[1], s, node):
                out.append((s2, self.mk_tuple([q, r])))
        return out
    if name in ('id', 'hash'):
        self.event('ident', node, st, what=name, val=args[0])
        return [(st, Int(A(fresh(name) + st.ictx)))]
    if name == 'type':
        v = args[0]
        if isinstance(v, Ref):
            o = st.heap.get(next(iter(v.ids)))
            if isinstance(o, H.HObj):
                return [(st, o.cls)]
        if isinstance(v, Geo):
            return [(st, Lib('geo.' + v.kind))]
        return [(st, Opq(('type', repr(type(v)))))]
    if name in ('str', 'repr', 'format', 'ascii'):
        if args and isinstance(args[0], Const) and isinstance(
            args[0].v, str
        ):
            return [(st, args[0])]
        return [(st, LibObj('str', fresh_id('str'), tuple(args)))]
    if name == 'getattr':
        n = args[1]
        if isinstance(n, Const) and isinstance(n.v, str):
            return self.getattr(args[0], n.v, st, node)
        return [(st, Opq(fresh('ga')))]
    if name == 'hasattr':
        return [(st, opq_bool())]
    if name == 'setattr':
        n = args[1]
        if isinstance(n, Const):
            self.setattr(args[0], n.v, args[2], st, node)
        return [(st, NONE)]
    if name == 'callable':
        return [
            (
                st,
                TRUE
                if isinstance(args[0], (Fn, Partial, Lib, Cls, CtxAttr))
                else opq_bool(),
            )
        ]
    if name in ('print', 'input', 'open'):
        self.event('io', node, st, what=name)
        return [(st, NONE)]
    if name == 'object':
        return [(st, Opq(fresh_id('obj')))]
    if name == 'super':
        return [(st, Opq(fresh_id('super')))]
    if name == 'float':
        return [(st, LibObj('float', fresh('f') + st.ictx))]
    if name == 'round':
        return [(st, LibObj('float', fresh('f') + st.ictx))]
    if name in ('property', 'classmethod', 'staticmethod'):
        return [(st, Composed(name, tuple(args)))]
    if name == 'globals' or name == 'vars':
        self.event('mutate', node, st, what=name + '()', phase=0,
                   now=self.phase)
        return [(st, Opq(fresh_id('gl')))]
    import builtins as B

    c = getattr(B, name, None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return [(st, LibObj('exc', fresh_id('ex'), (Lib('builtins.' + name),)
                            + tuple(args)))]
    if name == 'slice':
        return [(st, Composed('slice', tuple(args)))]
    self.undecided(node, 'builtin ' + name)


def sum_facts(self, q, t, st):
    """Bounds of a sum over one span from bounds of its elements."""
    for p in q.parts:
        if not isinstance(p, Span) or not isinstance(p.tmpl, Int):
            continue
        l = p.tmpl.l
        if ge(st, l, ZERO):
            s = sum_of(l, p)
            st.assume(f_lin(s))
            # a sum of n terms each >= c is >= n*c
        from .terms import mul

        for c in bounds_of(st, l, p.ix):
            st.assume(f_lin(sum_of(l, p) - mul(p.n, c)))


def sum_of(l, p):
    from .join import sum_lin

    return sum_lin(l, p.ix, p.n)


def bounds_of(st, l, ix):
    """Index-free lower bounds of l found among the facts."""
    s = l.single()
    out = []
    if s is None:
        return out
    for f in list(st.lins):
        if f.c.get(s) == 1:
            rest = A(s) - f
            from .terms import nested_atoms

            if not any(ix in nested_atoms(a) for a in rest.c):
                out.append(rest)
    return out[:3]


def enum_seq(self, q, start):
    if q.perm:
        return Composed('enum', (q, Int(start)))
    parts = []
    off = start
    for p in q.parts:
        if isinstance(p, Item):
            parts.append(Item(self.mk_tuple([Int(off), p.v])))
            off = off + 1
        else:
            parts.append(
                Span(
                    p.ix,
                    p.n,
                    self.mk_tuple([Int(off + A(p.ix)), p.tmpl]),
                )
            )
            off = off + p.n
    return q.replace(
        kind='iter', parts=tuple(parts), sid=fresh_id('q'),
        tags=q.tags & {'unordered'}, subs=frozenset(),
    )


def do_zip(self, args, kw, st, node):
    outs = [(st, [])]
    for a in args:
        if isinstance(a, tuple) and a and a[0] == '*':
            q = a[1]
            w = self.weak_elem(q)
            if not w.parts:
                return [(st, self.to_iter(self.mk_tuple(()), st, node))]
            p = w.parts[0]
            e = p.v if isinstance(p, Item) else p.tmpl
            # transposition of a family of fixed-size rows
            out = []
            for s, qs in outs:
                for s2, row in self.as_seq(e, s, node):
                    cols = row.items()
                    if cols is None:
                        self.undecided(node, 'zip of unknown rows')
                    tr = [
                        self.mk_tuple(()).replace(
                            parts=(
                                Span(
                                    p.ix if isinstance(p, Span) else
                                    new_ix(),
                                    p.n if isinstance(p, Span) else ONE,
                                    c,
                                ),
                            )
                        )
                        for c in cols
                    ]
                    out.append(
                        (s2, self.to_iter(self.mk_tuple(tr), s2, node))
                    )
            return out
        if isinstance(a, Composed) and a.op == 'repeat1':
            outs = [(s, qs + [('rep', a.args[0])]) for s, qs in outs]
            continue
        if isinstance(a, Composed) and a.op in ('cycle', 'count'):
            nxt = []
            for s, qs in outs:
                if a.op == 'count':
                    start = int_of(a.args[0]) if a.args else ZERO
                    ix = new_ix('ct')
                    nxt.append((s, qs + [('cnt', start)]))
                    continue
                for s2, q in self.as_seq(a.args[0], s, node):
                    w = self.weak_elem(q)
                    e = BOT
                    if w.parts:
                        p = w.parts[0]
                        e = p.v if isinstance(p, Item) else vsubst(
                            p.tmpl, {p.ix: A(fresh('cy') + s2.ictx)}
                        )
                    nxt.append((s2, qs + [('rep', e)]))
            outs = nxt
            continue
        outs = [
            (s2, qs + [q])
            for s, qs in outs
            for s2, q in self.as_seq(a, s, node, consume=True)
        ]
    res = []
    for s, qs in outs:
        if any(isinstance(x, tuple) and x[0] == 'cnt' for x in qs):
            base = [x for x in qs if isinstance(x, Seq)][0]
            qs = [
                mk_count(self, x[1], base)
                if isinstance(x, tuple) and x[0] == 'cnt'
                else x
                for x in qs
            ]
        if 'strict' in kw and kw['strict'] == TRUE:
            sq = [x for x in qs if isinstance(x, Seq)]
            for x, y in zip(sq, sq[1:]):
                f = f_eq(x.length(), y.length())
                if f != T:
                    s.assume(f)
        z = zip_seqs(self, qs, s, node)
        if z is None:
            res.append((s, self.mk_tuple(())))
            continue
        res.append((s, self.to_iter(z, s, node)))
    return res


def mk_count(self, start, base):
    ix = new_ix('ct')
    return Seq(
        'range', (Span(ix, base.length(), Int(start + A(ix))),), False,
        frozenset(), fresh_id('q'), frozenset(), None,
    )


def mk_range(self, args, st, node):
    cur = [(st, [])]
    for a in args:
        cur = [
            (s2, ls + [l])
            for s, ls in cur
            for s2, l in self.to_ints(a, s, node)
        ]
    out = []
    for s, ls in cur:
        if len(ls) == 1:
            lo, hi, step = ZERO, ls[0], 1
        else:
            lo, hi = ls[0], ls[1]
            step = ls[2].const if len(ls) > 2 else 1
        if step is None or step == 0:
            self.undecided(node, 'range step')
        d = hi - lo if step > 0 else lo - hi
        k = abs(step)
        if k != 1:
            from .terms import mk_floordiv

            n = mk_floordiv(d + (k - 1), L(k))
        else:
            n = d
        if n.const is not None:
            n = L(max(n.const, 0))
        else:
            if not ge(s, n, ZERO):
                n = simp_extreme('max', [n, ZERO], s)
        ix = new_ix('rg')
        if n.const == 0:
            out.append((s, self.mk_tuple((), 'range')))
            continue
        out.append(
            (
                s,
                Seq(
                    'range',
                    (Span(ix, n, Int(lo + A(ix).scale(step))),),
                    False,
                    frozenset({'unique', 'sorted'}),
                    fresh_id('q'),
                    frozenset(),
                    None,
                ),
            )
        )
    return out


def do_sorted(self, v, key, reverse, st, node):
    out = []
    if isinstance(key, Const):
        key = None
    if isinstance(reverse, Const) and reverse.v is False:
        reverse = None
    for s, q in self.as_seq(v, st, node, consume=True):
        it = q.items()
        if (
            it is not None
            and len(it) == 2
            and not q.perm
            and key is None
            and (reverse is None or isinstance(reverse, Const))
        ):
            a, b = it
            for s2, r in self.compare('Lt', b, a, s, node):
                for s3, sw in self.branch(s2, r, node):
                    pair = [b, a] if sw else [a, b]
                    if reverse is not None:
                        pair.reverse()
                    out.append(
                        (
                            s3,
                            self.alloc_list(
                                s3,
                                self.mk_tuple(pair, 'list').replace(
                                    tags=q.tags - {'unordered'},
                                    subs=q.subs | {q.sid},
                                ),
                                node,
                            ),
                        )
                    )
            continue
        if key is not None and q.parts:
            w = self.weak_elem(q)
            p = w.parts[0]
            e = p.v if isinstance(p, Item) else vsubst(
                p.tmpl, {p.ix: A(fresh('sk') + s.ictx)}
            )
            rs = self.call(key, [e], {}, s.copy(), node)
            total = any(key_total(e, kv) for _, kv in rs) if rs else True
        else:
            total = True
        r = self.sorted_seq(q, s, node, key, reverse)
        if not total and 'unordered' in q.tags:
            r = r.replace(tags=r.tags | {'unordered'})
        if (
            reverse is not None
            and key is None
            and isinstance(reverse, Const)
        ):
            r = self.reverse_seq(self.sorted_seq(q, s, node))
        out.append((s, self.alloc_list(s, r, node)))
    return out


def key_total(e, k):
    """Does the sort key determine the element?"""
    if isinstance(e, Geo) and e.kind == 'Point':
        if isinstance(k, Seq):
            ts = {getattr(x, 't', None) for x in seq_elems(k)}
            return {e.get('x').t, e.get('y').t} <= ts if isinstance(
                e.get('x'), Sc
            ) and isinstance(e.get('y'), Sc) else True
        return k == e
    return True


def do_next(self, args, st, node):
    v = args[0]
    default = args[1] if len(args) > 1 else None
    if isinstance(v, Composed):
        if v.op == 'repeat1':
            return [(st, v.args[0])]
        if v.op == 'cycle':
            out = []
            for s, q in self.as_seq(v.args[0], st, node):
                w = self.weak_elem(q)
                if not w.parts:
                    if default is not None:
                        out.append((s, default))
                    else:
                        self.raise_(s, Lib('builtins.StopIteration'), node)
                    continue
                p = w.parts[0]
                if isinstance(p, Item):
                    out.append((s, p.v))
                    continue
                if not s.assume(f_lin(p.n - 1)):
                    self.raise_(s, Lib('builtins.StopIteration'), node)
                    continue
                j = A(fresh('cyc') + s.ictx)
                s.assume(f_lin(j))
                s.assume(f_lin(p.n - 1 - j))
                out.append((s, vsubst(p.tmpl, {p.ix: j})))
            return out
        if v.op == 'count':
            return [(st, Int(A(fresh('cnt') + st.ictx)))]
    if isinstance(v, Seq) and v.kind == 'iter':
        q, pos = v, ZERO
        n = q.length()
        out = []
        t = truth(st, f_lin(n - 1))
        if t is not False:
            s2 = st.copy()
            if s2.assume(f_lin(n - 1)):
                out.extend(self.elem_at(q, ZERO, s2, node))
        if t is not True and default is not None:
            if st.assume(f_lin(-n)):
                out.append((st, default))
        return out
    if isinstance(v, Ref):
        out = []
        for h in v.ids:
            o = st.heap.get(h)
            if not isinstance(o, H.HIter):
                continue
            s = st.copy() if len(v.ids) > 1 else st
            self.check_mut(o, node, s)
            q = o.seq
            n = q.length()
            left = n - o.pos
            t = truth(s, f_lin(left - 1))
            if t is not True:
                s2 = s.copy()
                if s2.assume(f_lin(-left)):
                    if default is not None:
                        out.append((s2, default))
                    else:
                        self.raise_(
                            s2, Lib('builtins.StopIteration'), node
                        )
                if t is False or not s.assume(f_lin(left - 1)):
                    continue
            for s3, x in self.elem_at(q, o.pos, s, node):
                if len(v.ids) == 1:
                    s3.heap[h] = H.HIter(
                        q, o.pos + 1, o.phase, o.summary, o.site
                    )
                out.append((s3, x))
        return out
    return [(st, Opq(fresh('nx') + st.ictx))]


def isinstance_(self, v, c, st):
    cs = c.items() if isinstance(c, Seq) else [c]
    names = []
    for x in cs:
        if isinstance(x, Lib):
            names.append(x.path.rpartition('.')[2])
        elif isinstance(x, Cls):
            names.append(x.node.name)
        elif isinstance(x, CtxAttr):
            names.append(CTX_CLS.get(x.name, x.name))
        else:
            return opq_bool()
    mine = None
    if isinstance(v, Geo):
        mine = {v.kind}
    elif isinstance(v, (Int,)):
        mine = {'int', 'Integral', 'Number', 'Real'}
    elif isinstance(v, Const):
        mine = {type(v.v).__name__}
        if isinstance(v.v, bool):
            mine |= {'int'}
    elif isinstance(v, Bool):
        mine = {'bool', 'int'}
    elif isinstance(v, Seq):
        mine = {v.kind, 'Sequence', 'Iterable', 'Collection', 'Sized'}
    elif isinstance(v, Ref):
        o = st.heap.get(next(iter(v.ids)))
        if isinstance(o, H.HSeq):
            mine = {o.kind, 'Sequence', 'MutableSequence', 'Iterable',
                    'Collection', 'Sized'}
        elif isinstance(o, H.HObj):
            mine = {o.cls.node.name}
    elif isinstance(v, Strat):
        mine = {'SearchStrategy'}
    if mine is None:
        return opq_bool()
    return TRUE if mine & set(names) else FALSE


# ----------------------------------------------------------------- methods
def call_meth(self, fn, args, kw, st, node):
    o, name = fn.obj, fn.name
    if isinstance(o, Strat):
        if name in ('map', 'filter', 'flatmap'):
            f = args[0] if args else next(iter(kw.values()))
            return [(st, Strat(name, (o, f), (), self.site(node)))]
        if name in ('example',):
            self.event('eager', node, st, what='.example()')
            return self.draw(o, st, node)
        if name == 'validate':
            return [(st, NONE)]
        return [(st, Opq(fresh_id('sm')))]
    if isinstance(o, Ref):
        ob = st.heap.get(next(iter(o.ids)))
        if isinstance(ob, H.HSeq):
            return seq_method(self, o, ob, name, args, kw, st, node)
        if isinstance(ob, H.HDict):
            return dict_method(self, o, ob, name, args, kw, st, node)
        if isinstance(ob, H.HIter):
            if name == '__next__':
                return do_next(self, [o], st, node)
            return [(st, o)]
        return [(st, Opq(fresh('m') + st.ictx, name))]
    if isinstance(o, Seq):
        if name in ('index', 'count'):
            n = self.nn_atom(st)
            return [(st, Int(n))]
        if name == '__contains__':
            return self.contains(o, args[0], st, node)
        if name == '__len__':
            return [(st, Int(o.length()))]
        if name == '__getitem__':
            return self.get_item(o, args[0], st, node)
        return [(st, Opq(fresh('m') + st.ictx, name))]
    if isinstance(o, LibObj) and o.kind == 'random':
        return random_method(self, name, args, st, node)
    if isinstance(o, LibObj) and o.kind == 'data' and name == 'draw':
        return self.draw(args[0], st, node)
    if is_str(o):
        if (
            isinstance(o, Const)
            and all(
                isinstance(a, Const) and isinstance(a.v, (str, int))
                for a in args
            )
            and not kw
        ):
            try:
                r = getattr(o.v, name)(*[a.v for a in args])
            except Exception:
                r = None
            if isinstance(r, (str, bool)):
                return [(st, Const(r))]
        if name in ('startswith', 'endswith', 'isdigit'):
            return [(st, opq_bool())]
        return [
            (
                st,
                LibObj(
                    'str',
                    fresh_id('st'),
                    (o,) + tuple(args) + tuple(kw.values()),
                ),
            )
        ]
    l = int_of(o)
    if l is not None:
        if name == 'bit_length':
            if l.const is not None:
                return [(st, I(l.const.bit_length()))]
            a = A(fresh('bl') + st.ictx)
            st.assume(f_lin(a))
            if ge(st, l, ONE):
                st.assume(f_lin(l - a))
                st.assume(f_lin(a - 1))
            return [(st, Int(a))]
    if isinstance(o, Lib) or isinstance(o, Cls):
        return [(st, Opq(fresh('cm') + st.ictx, name))]
    if isinstance(o, Partial):
        return [(st, Opq(fresh('pm') + st.ictx, name))]
    if isinstance(o, LibObj) and o.kind == 'tree':
        if name.startswith('nearest') or name.startswith('find'):
            out = []
            src = o.data[0] if o.data else None
            if src is not None:
                for s, q in self.as_seq(src, st, node):
                    w = self.weak_elem(q)
                    if w.parts:
                        p = w.parts[0]
                        e = p.v if isinstance(p, Item) else vsubst(
                            p.tmpl, {p.ix: A(fresh('nr') + s.ictx)}
                        )
                        out.append((s, e))
                    else:
                        out.append((s, Opq(fresh('nr'))))
                return out
    return [(st, Opq(fresh('m') + st.ictx, name))]


def random_method(self, name, args, st, node):
    if name == 'choice':
        return self.choose(args[0], st, node)
    if name == 'getrandbits':
        k = int_of(args[0])
        a = A(fresh('rb') + st.ictx)
        st.assume(f_lin(a))
        if k is not None and k.const is not None and k.const < 30:
            st.assume(f_lin(L(2**k.const - 1) - a))
        return [(st, Int(a))]
    if name == 'shuffle':
        if isinstance(args[0], Ref):
            o = st.heap.get(next(iter(args[0].ids)))
            if isinstance(o, H.HSeq) and 'unordered' in o.seq.tags:
                self.event('unordered', node, st, what='shuffle')
        shuffle(self, args[0], st, node)
        return [(st, NONE)]
    if name in ('randint', 'randrange'):
        ls = [int_of(a) for a in args]
        a = A(fresh('ri') + st.ictx)
        if all(l is not None for l in ls):
            lo, hi = (ZERO, ls[0]) if len(ls) == 1 else (ls[0], ls[1])
            st.assume(f_lin(a - lo))
            st.assume(f_lin(hi - a - (1 if name == 'randrange' else 0)))
        return [(st, Int(a))]
    if name == 'sample':
        out = []
        for s, q in self.as_seq(args[0], st, node):
            if 'unordered' in q.tags:
                self.event('unordered', node, s, what='sample')
            for s2, k in self.to_ints(args[1], s, node):
                w = self.weak_elem(q)
                n = k
                if w.parts:
                    p = w.parts[0]
                    e = p.v if isinstance(p, Item) else vsubst(
                        p.tmpl, {p.ix: A(('d', (fresh_id('sa'),), A(p.ix)))}
                    )
                    s2.assume(f_lin(q.length() - n))
                    r = w.replace(
                        parts=(
                            Span(
                                p.ix if isinstance(p, Span) else new_ix(),
                                n, e,
                            ),
                        ),
                        sid=fresh_id('q'),
                        subs=q.subs | {q.sid},
                    )
                else:
                    r = w
                out.append((s2, self.alloc_list(s2, r, node)))
        return out
    return [(st, LibObj('float', fresh('f') + st.ictx))]


def seq_method(self, ref, ob, name, args, kw, st, node):
    strong = len(ref.ids) == 1 and not ob.summary
    q = ob.seq
    rb = ob.kind in ('set', 'frozenset', 'redblack')
    if name == 'append':
        self.append_to(ref, args[0], st, node)
        return [(st, NONE)]
    if name == 'appendleft':
        self.mutate(
            ref,
            lambda q: q.replace(
                parts=(Item(args[0]),)
                + (self.weak_elem(q) if q.perm else q).parts,
                perm=False, sid=fresh_id('q'), tags=frozenset(),
                subs=frozenset(),
            ),
            st, node,
        )
        return [(st, NONE)]
    if name in ('add',):
        self.mutate(ref, lambda q: add_elem(self, q, args[0], st), st, node)
        return [(st, NONE)]
    if name in ('extend', 'update', 'extendleft'):
        cur = [st]
        for a in args:
            nxt = []
            for s in cur:
                if isinstance(a, tuple) and a and a[0] == '*':
                    self.extend_seq(ref, a[1], s, node)
                    nxt.append(s)
                    continue
                for s2, r in self.as_seq(a, s, node, consume=True):
                    if rb:
                        for e in seq_elems(self.weak_elem(r)):
                            self.mutate(
                                ref,
                                lambda q, e=e, r=r: add_elem(
                                    self, q, e, s2, r.length()
                                ),
                                s2, node,
                            )
                        if not r.parts:
                            pass
                    else:
                        self.extend_seq(ref, r, s2, node)
                    nxt.append(s2)
            cur = nxt
        return [(s, NONE) for s in cur]
    if name in ('pop', 'popleft', 'popmin', 'popmax'):
        if 'unordered' in q.tags or ob.kind == 'set':
            if ob.kind == 'set' and not q.length().const == 1:
                self.event('unordered', node, st, what='set.pop')
        n = q.length()
        t = truth(st, f_lin(n - 1)) if not rb else None
        if q.length().const == 0:
            t = False
        exc = (
            'KeyError'
            if ob.kind == 'set'
            else 'ValueError'
            if ob.kind == 'redblack'
            else 'IndexError'
        )
        if t is not True:
            s2 = st.copy()
            if rb or s2.assume(f_lin(-n)):
                self.raise_(s2, Lib('builtins.' + exc), node)
            if t is False:
                return []
            if not st.assume(f_lin(n - 1)):
                return []
        idx = None
        if name == 'popleft':
            idx = ZERO
        elif name == 'pop' and not rb:
            idx = int_of(args[0]) if args else n - 1
        if strong and idx is not None and not rb:
            out = []
            if idx.const is not None and idx.const < 0:
                idx = n + idx
            for s, v in self.elem_at(q, idx, st, node):
                self.check_mut(ob, node, s)
                r = None
                if idx == n - 1:
                    r = drop_last(self, q, s)
                elif idx == ZERO:
                    r = sub_seq(self, q, ONE, n - 1, s)
                if r is None:
                    r = self.weak_elem(q, n - 1, s)
                s.heap[next(iter(ref.ids))] = ob.with_seq(r)
                out.append((s, v))
            return out
        w = self.weak_elem(q)
        if not w.parts:
            return []
        p = w.parts[0]
        e = p.v if isinstance(p, Item) else vsubst(
            p.tmpl, {p.ix: A(fresh('pop') + st.ictx)}
        )
        self.mutate(
            ref,
            lambda q: self.weak_elem(q, self.nn_atom(st), st).replace(
                tags=q.tags & {'unique', 'unordered'}
            ),
            st, node,
        )
        return [(st, e)]
    if name in ('remove', 'discard', 'clear', 'difference_update',
                'intersection_update'):
        if name == 'clear':
            self.mutate(
                ref,
                lambda q: q.replace(parts=(), sid=fresh_id('q')),
                st, node,
            )
            return [(st, NONE)]
        n = self.nn_atom(st)
        st.assume(f_lin(q.length() - n))
        self.mutate(
            ref,
            lambda q: self.weak_elem(q, n, st).replace(
                tags=q.tags & {'unique', 'unordered'}
            ),
            st, node,
        )
        return [(st, NONE)]
    if name == 'insert':
        self.mutate(ref, lambda q: add_elem(self, q, args[1], st, ONE, 1),
                    st, node)
        return [(st, NONE)]
    if name == 'reverse':
        self.mutate(ref, lambda q: self.reverse_seq(q), st, node)
        return [(st, NONE)]
    if name == 'sort':
        out = []
        for s, r in do_sorted(
            self, ref, kw.get('key'), kw.get('reverse'), st, node
        ):
            for s2, rq in self.as_seq(r, s, node):
                self.mutate(ref, lambda _: rq, s2, node)
                out.append((s2, NONE))
        return out
    if name == 'copy':
        return [
            (s, self.rewrap(ref, r, s, node))
            for s, r in self.as_seq(ref, st, node)
        ]
    if name in ('index', 'count'):
        return [(st, Int(self.nn_atom(st)))]
    if name == '__contains__':
        return self.contains(ref, args[0], st, node)
    if name == '__len__':
        return call_builtin(self, 'len', [ref], {}, st, node)
    if name in ('__getitem__',):
        return self.get_item(ref, args[0], st, node)
    if name in ('union', 'difference', 'intersection',
                'symmetric_difference'):
        op = {
            'union': 'BitOr', 'difference': 'Sub', 'intersection': 'BitAnd',
            'symmetric_difference': 'BitXor',
        }[name]
        cur = [(st, ref)]
        for a in args:
            nxt = []
            for s, r in cur:
                for s2, aq in self.as_seq(a, s, node):
                    nxt.extend(self.binop(op, r, aq, s2, node))
            cur = nxt
        return cur
    if name in ('min', 'max', 'prev', 'next', 'floor', 'ceil'):
        w = self.weak_elem(q)
        if not w.parts:
            return []
        p = w.parts[0]
        e = p.v if isinstance(p, Item) else vsubst(
            p.tmpl, {p.ix: A(fresh('rm') + st.ictx)}
        )
        s2 = st.copy()
        self.raise_(s2, Lib('builtins.ValueError'), node)
        return [(st, e)]
    if name in ('issubset', 'issuperset', 'isdisjoint'):
        return [(st, opq_bool())]
    return [(st, Opq(fresh('sm') + st.ictx, name))]


def drop_last(self, q, st):
    if q.perm or not q.parts:
        return None
    p = q.parts[-1]
    if isinstance(p, Item):
        parts = q.parts[:-1]
    elif ge(st, p.n, ONE):
        parts = q.parts[:-1] + (Span(p.ix, p.n - 1, p.tmpl),)
    else:
        return None
    return q.replace(
        parts=parts, sid=fresh_id('q'), subs=q.subs | {q.sid},
        tags=q.tags & {'unique', 'unordered'},
    )


def add_elem(self, q, e, st, k=ONE, exact=0):
    """Weak insertion of an element (sets, keyed trees, list.insert)."""
    w = self.weak_elem(q)
    if not w.parts:
        r = self.mk_tuple([e], q.kind) if k == ONE else self.mk_span(
            q.kind, k, e
        )
        return r.replace(
            tags=q.tags & {'unordered'}, site=q.site
        )
    p = w.parts[0]
    if isinstance(p, Item) and p.v == e:
        return q
    if isinstance(p, Span) and p.tmpl == e:
        tm = e
    else:
        ix = p.ix if isinstance(p, Span) else new_ix('ad')
        tm = self.join_elem(
            p.v if isinstance(p, Item) else p.tmpl, e, ix
        )
    if isinstance(p, Item):
        p = Span(new_ix('ad'), ONE, tm)
    if exact:
        n = q.length() + 1
    else:
        n = self.nn_atom(st)
    return Seq(
        q.kind, (Span(p.ix, n, tm),), False, q.tags & {'unordered'},
        fresh_id('q'), frozenset(), q.site,
    )


def dict_method(self, ref, ob, name, args, kw, st, node):
    if name in ('items', 'keys', 'values'):
        def pick(k, v):
            return (
                self.mk_tuple([k, v])
                if name == 'items'
                else k
                if name == 'keys'
                else v
            )

        if isinstance(ob.sk, Bot):
            return [(st, self.mk_tuple([pick(k, v) for k, v in ob.items]))]
        sk, sv = ob.sk, ob.sv
        for k, v in ob.items:
            sk, sv = wjoin(sk, weaken(k, st)), wjoin(sv, weaken(v, st))
        sp = self.mk_span('tuple', self.nn_atom(st), pick(sk, sv))
        return [(st, open_span(sp, st))]
    if name in ('get', 'pop', 'setdefault', '__getitem__'):
        default = args[1] if len(args) > 1 else None
        if name == 'get' and default is None:
            default = NONE
        vals = BOT
        if isinstance(ob.sk, Bot):
            out = []
            cur = st
            for k, v in ob.items:
                nxt = None
                for s, r in self.compare('Eq', args[0], k, cur, node):
                    for s2, b in self.branch(s, r, node):
                        if b:
                            out.append((s2, v))
                        else:
                            nxt = s2
                    break
                cur = nxt
                if cur is None:
                    break
            if cur is not None:
                if default is not None:
                    out.append((cur, default))
                else:
                    self.raise_(cur, Lib('builtins.KeyError'), node)
            if name in ('pop', 'setdefault'):
                self.check_mut(ob, node, st)
            return out
        sv = ob.sv
        for k, v in ob.items:
            sv = wjoin(sv, weaken(v, st))
        sv = freshen(sv, st.ictx)
        if name in ('pop', 'setdefault'):
            self.check_mut(ob, node, st)
        out = []
        if default is not None:
            out.append((st.copy(), default))
        else:
            self.raise_(st.copy(), Lib('builtins.KeyError'), node)
        out.append((st, sv))
        return out
    if name == 'update':
        for a in args:
            if isinstance(a, Ref):
                o2 = st.heap.get(next(iter(a.ids)))
                if isinstance(o2, H.HDict):
                    for k, v in o2.items:
                        self.set_item(ref, k, v, st, node)
                    if not isinstance(o2.sk, Bot):
                        self.set_item(ref, o2.sk, o2.sv, st, node)
        for k, v in kw.items():
            self.set_item(ref, Const(k), v, st, node)
        return [(st, NONE)]
    if name == 'copy':
        hid = fresh_id('h')
        st.heap[hid] = H.HDict(
            ob.items, ob.sk, ob.sv, self.phase, False, self.site(node)
        )
        return [(st, Ref(frozenset([hid])))]
    if name in ('__contains__',):
        return self.contains(ref, args[0], st, node)
    self.check_mut(ob, node, st)
    return [(st, Opq(fresh('dm') + st.ictx, name))]


# --------------------------------------------------------------- strategies
PRIM = {
    'integers', 'booleans', 'just', 'sampled_from', 'lists', 'tuples',
    'builds', 'permutations', 'randoms', 'one_of', 'none', 'nothing',
    'shared', 'deferred', 'data', 'recursive', 'sets', 'frozensets',
    'fixed_dictionaries', 'dictionaries', 'iterables',
}


def call_strategy(self, name, args, kw, st, node):
    if name == 'composite':
        return [(st, Composed('composite', (args[0],)))]
    if name == 'one_of':
        xs = []
        for a in args:
            if isinstance(a, tuple) and a and a[0] == '*':
                xs.extend(seq_elems(a[1]))
            elif isinstance(a, (Seq, Ref)):
                for s, q in self.as_seq(a, st, node):
                    xs.extend(seq_elems(q))
            else:
                xs.append(a)
        r = xs[0]
        for x in xs[1:]:
            r = Strat('or', (r, x), (), self.site(node))
        return [(st, r)]
    if name == 'SearchStrategy':
        return [(st, Opq(fresh_id('ss')))]
    if name in ('sampled_from', 'permutations', 'just'):
        cur = []
        a = args[0] if args else next(iter(kw.values()))
        if name == 'just':
            return [(st, Strat('just', (a,), (), self.site(node)))]
        out = []
        for s, q in self.as_seq(a, st, node):
            if 'unordered' in q.tags:
                self.event('unordered', node, s, what=name)
            self.event(name, node, s, seq=q, phase=self.phase)
            out.append((s, Strat(name, (q,), (), self.site(node))))
        return out
    if name in ('lists', 'sets', 'frozensets', 'iterables'):
        names = ('elements', 'min_size', 'max_size', 'unique_by', 'unique')
        d = dict(kw)
        for k, a in zip(
            ('elements',), args
        ):
            d[k] = a
        res = dict(
            min_size=d.get('min_size', I(0)),
            max_size=d.get('max_size', NONE),
            unique=d.get('unique', FALSE),
            unique_by=d.get('unique_by', NONE),
        )
        if name in ('sets', 'frozensets'):
            res['unique'] = TRUE
        out = [(st, res)]
        for k in ('min_size', 'max_size', 'unique'):
            nxt = []
            for s, r in out:
                v = r[k]
                if isinstance(v, Un):
                    for w in v.vs:
                        nxt.append((s.copy(), dict(r, **{k: w})))
                elif isinstance(v, Bool) and k == 'unique':
                    for s2, b in self.branch(s, v, node):
                        nxt.append((s2, dict(r, **{k: Const(b)})))
                else:
                    nxt.append((s, r))
            out = nxt
        return [
            (
                s,
                Strat(
                    name,
                    (d['elements'],),
                    tuple(sorted(r.items())),
                    self.site(node),
                ),
            )
            for s, r in out
        ]
    if name == 'integers':
        lo = args[0] if args else kw.get('min_value', NONE)
        hi = args[1] if len(args) > 1 else kw.get('max_value', NONE)
        outs = [(st, ())]
        for x in (lo, hi):
            nxt = []
            for s, vs in outs:
                if isinstance(x, Const) and x.v is None:
                    nxt.append((s, vs + (NONE,)))
                else:
                    for s2, l in self.to_ints(x, s, node):
                        nxt.append((s2, vs + (Int(l),)))
            outs = nxt
        res = []
        for s, vs in outs:
            self.event('integers', node, s, lo=vs[0], hi=vs[1])
            res.append((s, Strat('integers', vs, (), self.site(node))))
        return res
    if name in PRIM:
        return [
            (
                st,
                Strat(
                    name,
                    tuple(args),
                    tuple(sorted(kw.items(), key=lambda p: p[0])),
                    self.site(node),
                ),
            )
        ]
    return [
        (
            st,
            Strat(
                'other',
                (Const(name),)
                + tuple(a for a in args if isinstance(a, V)),
                tuple(sorted(kw.items(), key=lambda p: p[0])),
                self.site(node),
            ),
        )
    ]


def leaf_scalar(self, tag, st, t=None):
    return Sc(
        t if t is not None else A(fresh('c' + str(tag)) + st.ictx),
        exact_prov(tag),
        (),
    )


def draw_join(self, outs, node):
    """Limit the outcomes of one draw."""
    outs = self.tidy_values(outs)
    if len(outs) <= self.limit_draw:
        return outs
    return [self.join_outs(outs)]


def draw(self, s, st, node):
    """Values a strategy can produce: [(state, value)]."""
    ph = self.phase
    if ph < 2:
        self.phase = 2
    try:
        key = None
        outs = _draw(self, s, st, node)
        if (
            self.nest
            and len(outs) > 1
            and s.op in ('map', 'filter', 'flatmap', 'builds', 'or')
        ):
            outs = [self.join_outs(outs)]
        return [(s2, self.seal(v, s2)) for s2, v in outs]
    finally:
        self.phase = ph


def seal(self, v, st):
    """Attach evidence available at draw time (hook for rules)."""
    return v


def _draw(self, s, st, node):
    op = s.op
    if isinstance(s, Strat) and op == 'leaf':
        return [(st, leaf_scalar(self, s.args[0], st))]
    if op == 'or':
        outs = []
        for i, x in enumerate(s.args):
            outs.extend(draw_any(self, x, st.copy(), node))
        return outs
    if op == 'just':
        return [(st, s.args[0])]
    if op == 'none':
        return [(st, NONE)]
    if op == 'nothing':
        return []
    if op == 'booleans':
        return [(st, Bool(('lit', ('drawn', fresh_id('b')))))]
    if op == 'integers':
        a = A(fresh('int') + st.ictx)
        ok = True
        if isinstance(s.args[0], Int):
            ok = st.assume(f_lin(a - s.args[0].l))
        if ok and isinstance(s.args[1], Int):
            ok = st.assume(f_lin(s.args[1].l - a))
        return [(st, Int(a))] if ok else []
    if op == 'sampled_from':
        q = s.args[0]
        n = q.length()
        if n.const == 0:
            return []
        if not st.assume(f_lin(n - 1)):
            return []
        it = q.items()
        if it is not None and len(it) <= 6:
            return [(st.copy(), x) for x in it]
        a = A(fresh('smp') + st.ictx)
        st.assume(f_lin(a))
        st.assume(f_lin(n - 1 - a))
        return self.elem_at(q, a, st, node)
    if op == 'permutations':
        q = s.args[0]
        if q.perm:
            q = self.weak_elem(q)
        r = q.replace(
            kind='list',
            perm=True,
            sid=fresh_id('q'),
            tags=q.tags & {'unique'},
            subs=q.subs | {q.sid},
        )
        return [(st, self.alloc_list(st, r, node))]
    if op == 'randoms':
        return [(st, LibObj('random', fresh_id('rnd')))]
    if op in ('lists', 'sets', 'frozensets', 'iterables'):
        return draw_list(self, s, st, node)
    if op == 'tuples':
        return draw_args(self, s.args, st, node)
    if op == 'builds':
        fn = s.args[0]
        kwn = [k for k, _ in s.kw]
        out = []
        for s2, tup in draw_args(
            self, s.args[1:] + tuple(v for _, v in s.kw), st, node
        ):
            na = len(s.args) - 1
            if tup.items() is None or len(tup.parts) != na + len(kwn):
                args = [('*', tup)]
                kw = {}
            else:
                vals = tup.items()
                args, kw = vals[:na], dict(zip(kwn, vals[na:]))
            mark = len(self.temps)
            self.temps.extend([s] + ([tup]))
            out.extend(nested_call(self, fn, args, kw, s2, node))
            del self.temps[mark:]
        return out
    if op in ('map', 'filter', 'flatmap'):
        base, f = s.args
        out = []
        mark = len(self.temps)
        self.temps.append(f)
        outs = draw_any(self, base, st, node)
        g = f
        while isinstance(g, Partial):
            g = g.fn
        if (
            len(outs) > 1
            and op != 'filter'
            and isinstance(g, Fn)
            and (len(outs) > 3 or self.heavy(g.node, 3))
        ):
            outs = [self.join_outs(outs)]
        if op == 'filter' and not self.nest:
            outs = [w for x in outs for w in split_alias(*x)]
        for s2, v in outs:
            self.temps.append(v)
            if op == 'map':
                out.extend(nested_call(self, f, [v], {}, s2, node))
            elif op == 'filter':
                if isinstance(g, Fn) and self.heavy(g.node, 2):
                    rs = nested_call(self, f, [v], {}, s2, node)
                else:
                    rs = self.call(f, [v], {}, s2, node)
                for s3, r in rs:
                    for s4, b in self.branch(s3, r, node):
                        if b:
                            out.append((s4, v))
            else:
                for s3, r in nested_call(self, f, [v], {}, s2, node):
                    out.extend(draw_any(self, r, s3, node))
            self.temps.pop()
        del self.temps[mark:]
        return out
    if op == 'composite':
        fn = s.args[0]
        d = LibObj('draw', ('draw',), ())
        args = [d] + list(s.args[1:])
        self.nest += 1
        try:
            return nested_call(self, fn, args, dict(s.kw), st, node, 1)
        finally:
            self.nest -= 1
    if op == 'data':
        return [(st, LibObj('data', fresh_id('data')))]
    if op == 'shared':
        return draw_any(self, s.args[0], st, node)
    if op == 'deferred':
        out = []
        for s2, r in self.call(s.args[0], [], {}, st, node):
            out.extend(draw_any(self, r, s2, node))
        return out
    return [(st, Opq(fresh('draw') + st.ictx, 'strategy ' + op))]


def split_alias(st, v):
    """One outcome per object a value may be."""
    if isinstance(v, Un):
        ws = v.vs
    elif isinstance(v, Ref) and len(v.ids) > 1:
        ws = [Ref(frozenset([h])) for h in sorted(v.ids, key=repr)]
    else:
        return [(st, v)]
    if len(ws) > 4:
        return [(st, v)]
    return [(st.copy(), w) for w in ws]


def nested_call(self, fn, args, kw, st, node, own=0):
    """Functions run by draws made inside composites are analysed without
    relational facts (filters are analysed with them)."""
    f = fn
    while isinstance(f, Partial):
        f = f.fn
    if self.nest <= own or CHEAP or not isinstance(f, Fn):
        return self.call(fn, args, kw, st, node)
    if not self.heavy(f.node, 3):
        return self.call(fn, args, kw, st, node)
    CHEAP.append(fn)
    try:
        return self.call(fn, args, kw, st, node)
    finally:
        CHEAP.pop()


def straight(node):
    """A function that only returns the result of plain calls."""
    body = node.body
    if isinstance(body, list):
        body = [
            s for s in body
            if not isinstance(s, ast.Pass) and not (
                isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)
            )
        ]
        if len(body) != 1 or not isinstance(body[0], ast.Return):
            return False
        body = body[0].value
    return isinstance(body, ast.Call) and all(
        isinstance(a, (ast.Name, ast.Attribute, ast.Starred, ast.Constant))
        for a in body.args
    ) and isinstance(body.func, (ast.Name, ast.Attribute))


def draw_any(self, s, st, node):
    if isinstance(s, Un):
        out = []
        for w in s.vs:
            out.extend(draw_any(self, w, st.copy(), node))
        return out
    if isinstance(s, Strat):
        return self.draw(s, st, node)
    if isinstance(s, Bot):
        return []
    if isinstance(s, Opq):
        return [(st, Opq(fresh('draw') + st.ictx, 'unknown strategy'))]
    # hypothesis raises on non-strategies
    self.event('badcall', node, st, fn='draw of a non-strategy')
    self.raise_(st, Lib('builtins.TypeError'), node)
    return []


def draw_args(self, args, st, node):
    """Tuple of drawn values: [(state, Seq)]."""
    outs = [(st, ())]
    for a in args:
        nxt = []
        for s, parts in outs:
            mark = len(self.temps)
            self.temps.extend(p.v for p in parts if isinstance(p, Item))
            if isinstance(a, tuple) and a and a[0] == '*':
                q = a[1]
                if q.perm:
                    q = self.weak_elem(q)
                cur = [(s, ())]
                for p in q.parts:
                    n2 = []
                    for s1, ps in cur:
                        if isinstance(p, Item):
                            n2 += [
                                (s2, ps + (Item(v),))
                                for s2, v in draw_any(self, p.v, s1, node)
                            ]
                        else:
                            for s2, sp in draw_family(
                                self, p, s1, node
                            ):
                                n2.append((s2, ps + (sp,)))
                    cur = n2
                nxt += [(s1, parts + ps) for s1, ps in cur]
            else:
                nxt += [
                    (s2, parts + (Item(v),))
                    for s2, v in draw_any(self, a, s, node)
                ]
            del self.temps[mark:]
        outs = nxt
    return [
        (
            s,
            self.mk_tuple(()).replace(parts=parts),
        )
        for s, parts in outs
    ]


def draw_family(self, p, st, node):
    """Independent draws of an indexed family of strategies."""
    st.ictx = st.ictx + (A(p.ix),)
    outs = draw_any(self, p.tmpl, st, node)
    if not outs:
        return []
    s, v = self.join_outs(outs) if len(outs) > 1 else outs[0]
    s.ictx = s.ictx[:-1]
    return [(s, Span(p.ix, p.n, v))]


def draw_list(self, s, st, node):
    kw = dict(s.kw)
    lo, hi = kw['min_size'], kw['max_size']
    uniq = kw['unique'] == TRUE
    la = int_of(lo)
    if la is None:
        la = ZERO
    lb = int_of(hi)
    sid = fresh_id('dl')
    ix = new_ix('dl')
    elem = s.args[0]
    # number of elements
    if lb is not None and eq(st, la, lb):
        n = la
        if n.const is None and not ge(st, n, ZERO):
            if not st.assume(f_lin(n)):
                return []
    else:
        n = A(('nn', (fresh_id('ln'),)) + st.ictx)
        if not st.assume(f_lin(n - la)):
            return []
        if lb is not None and not st.assume(f_lin(lb - n)):
            return []
    tags = set()
    if uniq:
        tags.add('unique')
    if n.const is not None and n.const <= 4:
        cur = [(st, [])]
        for i in range(n.const):
            cur = [
                (s2, vs + [v])
                for s1, vs in cur
                for s2, v in draw_elem(self, elem, s1, node, sid, L(i), uniq)
            ]
        out = []
        for s2, vs in cur:
            q = Seq(
                'list',
                tuple(Item(v) for v in vs),
                False,
                frozenset(tags),
                sid,
                frozenset(),
                s.site,
            )
            if uniq:
                ok = distinct(self, vs, s2)
                if not ok:
                    continue
            out.append((s2, q))
    else:
        if n.const == 0:
            out = [(st, self.mk_tuple((), 'list'))]
        else:
            st.ictx = st.ictx + (A(ix),)
            if not st.assume(T):
                return []
            self.temps.append(Int(n))
            outs = draw_elem(self, elem, st, node, sid, A(ix), uniq)
            self.temps.pop()
            if not outs:
                if ge(st, n, ONE):
                    return []
                out = [(st, self.mk_tuple((), 'list'))]
                st.ictx = st.ictx[:-1]
            else:
                s2, v = (
                    self.join_outs(outs) if len(outs) > 1 else outs[0]
                )
                s2.ictx = s2.ictx[:-1]
                out = [
                    (
                        s2,
                        Seq(
                            'list',
                            (Span(ix, n, v),),
                            False,
                            frozenset(tags),
                            sid,
                            frozenset(),
                            s.site,
                        ),
                    )
                ]
    res = []
    for s2, q in out:
        if s.op in ('sets', 'frozensets'):
            res.append((s2, self.alloc(s2, 'set', q, node)))
        else:
            res.append((s2, self.alloc(s2, 'list', q, node)))
    return res


def draw_elem(self, elem, st, node, sid, i, uniq):
    if isinstance(elem, Strat) and elem.op == 'leaf':
        if uniq:
            UNIQUE[sid] = True
        v = leaf_scalar(self, elem.args[0], st, A(('e', sid, i)))
        return [(st, v)]
    return draw_any(self, elem, st, node)


def distinct(self, vs, st):
    for i, a in enumerate(vs):
        for b in vs[i + 1:]:
            f = None
            if isinstance(a, Sc) and isinstance(b, Sc):
                f = self.sc_cmp('Eq', a, b, st)
            elif isinstance(a, Geo) and isinstance(b, Geo):
                f = self.geo_eq(a, b, st)
            elif int_of(a) is not None and int_of(b) is not None:
                f = f_eq(int_of(a), int_of(b))
            if f is not None and not st.assume(f_not(f)):
                return False
    return True
