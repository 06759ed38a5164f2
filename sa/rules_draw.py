"""Rules about drawn values (draw phase).

Each public factory is interpreted for a parameter shape, then its strategy
is drawn abstractly; every abstract draw is checked against the obligations
of a property, for all parameter values at once.
"""
from . import spec
from .driver import CX, CY, build, draws, engine, signature, split
from .join import refine_prov
from .state import (
    entails,
    f_and,
    f_eq,
    f_lin,
    f_not,
    f_or,
    ge,
    truth,
    unsat,
)
from .terms import A, L, ONE, ZERO
from .values import *
from .values import fresh

TRUE_, FALSE_ = True, False


def P(n):
    return A(('p', n))


class Un_(Exception):
    """The value is not known precisely enough."""


def alts(st, v):
    """[(state, non-Un, non-Ref value)]."""
    if isinstance(v, Un):
        out = []
        for w in v.vs:
            out.extend(alts(st, w))
        return out
    if isinstance(v, Ref):
        out = []
        for h in v.ids:
            o = st.heap.get(h)
            q = getattr(o, 'seq', None)
            out.append((st, q if isinstance(q, Seq) else Opq(fresh_id('r'))))
        return out
    return [(st, v)]


def elements(st, q):
    """[(state, generic element)] of a sequence."""
    out = []
    for p in q.parts:
        if isinstance(p, Item):
            out.append((st, p.v))
            continue
        k = A(fresh('k'))
        s = st.copy()
        if s.assume(f_lin(k)) and s.assume(f_lin(p.n - k - 1)):
            out.append((s, vsubst(p.tmpl, {p.ix: k})))
    return out


def fields(st, v, path=''):
    """Walk a geometry: yields (state, path, value) for it and its parts."""
    for s, w in alts(st, v):
        yield s, path, w
        if isinstance(w, Geo):
            for n, x in w.f:
                yield from fields(s, x, path + '.' + n)
        elif isinstance(w, Seq):
            for s2, x in elements(s, w):
                yield from fields(s2, x, path + '[]')


def get(st, v, name):
    out = []
    for s, w in alts(st, v):
        if not isinstance(w, Geo):
            raise Un_('%s of %r' % (name, type(w).__name__))
        x = w.get(name)
        if x is None:
            raise Un_('%s has no %s' % (w.kind, name))
        out.extend(alts(s, x))
    return out


def lengths(st, v):
    out = []
    for s, w in alts(st, v):
        if isinstance(w, Seq):
            out.append((s, w.length()))
        else:
            raise Un_('length of %s' % type(w).__name__)
    return out


def each(st, v):
    for s, w in alts(st, v):
        if not isinstance(w, Seq):
            raise Un_('elements of %s' % type(w).__name__)
        yield from elements(s, w)


# ------------------------------------------------------------------ sizes
def sizes(name, st, v):
    """[(state, label, length term, index of the size pair)]."""
    if name == 'multipoints':
        for s, w in get(st, v, 'points'):
            for s2, n in lengths(s, w):
                yield s2, 'points', n, 0
    elif name == 'multisegments':
        for s, w in get(st, v, 'segments'):
            for s2, n in lengths(s, w):
                yield s2, 'segments', n, 0
    elif name in (
        'contours', 'convex_contours', 'concave_contours', 'star_contours'
    ):
        for s, w in get(st, v, 'vertices'):
            for s2, n in lengths(s, w):
                yield s2, 'vertices', n, 0
    elif name == 'multicontours':
        for s, n in lengths(st, v):
            yield s, 'contours', n, 0
        for s, c in each(st, v):
            for s2, w in get(s, c, 'vertices'):
                for s3, n in lengths(s2, w):
                    yield s3, 'vertices of a contour', n, 1
    elif name == 'polygons':
        yield from polygon_sizes(st, v, (0, 1, 2))
    elif name == 'multipolygons':
        for s, w in get(st, v, 'polygons'):
            for s2, n in lengths(s, w):
                yield s2, 'polygons', n, 0
            for s2, p in each(s, w):
                yield from polygon_sizes(s2, p, (1, 2, 3))
    elif name == 'mixes':
        for s, w in get(st, v, 'discrete'):
            if isinstance(w, Geo) and w.kind == 'Empty':
                yield s, 'points', ZERO, 0
            elif isinstance(w, Geo) and w.kind == 'Point':
                yield s, 'points', ONE, 0
            else:
                for s2, q in get(s, w, 'points'):
                    for s3, n in lengths(s2, q):
                        yield s3, 'points', n, 0
        for s, w in get(st, v, 'linear'):
            if isinstance(w, Geo) and w.kind == 'Empty':
                yield s, 'segments', ZERO, 1
            elif isinstance(w, Geo) and w.kind == 'Segment':
                yield s, 'segments', ONE, 1
            elif isinstance(w, Geo) and w.kind == 'Contour':
                for s2, q in get(s, w, 'vertices'):
                    for s3, n in lengths(s2, q):
                        yield s3, 'segments', n, 1
            else:
                for s2, q in get(s, w, 'segments'):
                    for s3, n in lengths(s2, q):
                        yield s3, 'segments', n, 1
        for s, w in get(st, v, 'shaped'):
            if isinstance(w, Geo) and w.kind == 'Empty':
                yield s, 'polygons', ZERO, 2
            elif isinstance(w, Geo) and w.kind == 'Polygon':
                yield s, 'polygons', ONE, 2
                yield from polygon_sizes(s, w, (3, 4, 5))
            else:
                for s2, q in get(s, w, 'polygons'):
                    for s3, n in lengths(s2, q):
                        yield s3, 'polygons', n, 2
                    for s3, p in each(s2, q):
                        yield from polygon_sizes(s3, p, (3, 4, 5))


def polygon_sizes(st, v, ix):
    for s, w in get(st, v, 'border'):
        for s2, q in get(s, w, 'vertices'):
            for s3, n in lengths(s2, q):
                yield s3, 'vertices of a border', n, ix[0]
    for s, w in get(st, v, 'holes'):
        for s2, n in lengths(s, w):
            yield s2, 'holes of a polygon', n, ix[1]
        for s2, h in each(s, w):
            for s3, q in get(s2, h, 'vertices'):
                for s4, n in lengths(s3, q):
                    yield s4, 'vertices of a hole', n, ix[2]


def rule_sizes(cx, st, v):
    pairs = spec.SIZES[cx.name]
    for s, label, n, i in sizes(cx.name, st, v):
        lo, hi, floor = pairs[i]
        for what, bound, f in (
            ('at least %s' % lo, lo, f_lin(n - P(lo))),
            ('at least %d' % floor, None, f_lin(n - floor)),
            ('at most %s' % hi, hi, None if hi in cx.none else f_lin(
                P(hi) - n)),
        ):
            if f is None:
                continue
            ok = entails(s, f)
            if ok:
                cx.ok('%s: number of %s is %s' % (cx.label, label, what))
            else:
                cx.fail(
                    s,
                    '%s: number of %s is %s' % (cx.label, label, what),
                    'no path condition bounds %r (%s)' % (n, bound or floor),
                )


# ------------------------------------------------------------------ kinds
PARTS = {
    'Point': {'x': 'scalar', 'y': 'scalar'},
    'Segment': {'start': ('Point',), 'end': ('Point',)},
    'Box': {k: 'scalar' for k in ('min_x', 'max_x', 'min_y', 'max_y')},
    'Contour': {'vertices': ['Point']},
    'Polygon': {'border': ('Contour',), 'holes': ['Contour']},
    'Multipoint': {'points': ['Point']},
    'Multisegment': {'segments': ['Segment']},
    'Multipolygon': {'polygons': ['Polygon']},
    'Mix': {
        'discrete': ('Empty', 'Point', 'Multipoint'),
        'linear': ('Empty', 'Segment', 'Multisegment', 'Contour'),
        'shaped': ('Empty', 'Polygon', 'Multipolygon'),
    },
    'Empty': {},
}


def rule_kinds(cx, st, v):
    want = spec.RESULT[cx.name]
    shape = [want[1]] if isinstance(want, tuple) else (want,)
    kind_check(cx, st, v, shape, 'the drawn value')


def kind_check(cx, st, v, want, path):
    for s, w in alts(st, v):
        label = '%s: %s is %s of the given context' % (
            cx.label, path,
            want if want == 'scalar' else 'list of %s' % want[0]
            if isinstance(want, list) else ' or '.join(want),
        )
        if isinstance(w, Opq) or isinstance(w, LibObj):
            cx.unknown(label)
            continue
        if want == 'scalar':
            if isinstance(w, (Sc, Int)):
                cx.ok(label)
            else:
                cx.fail(s, label, 'it is a %s' % type(w).__name__)
        elif isinstance(want, list):
            if not isinstance(w, Seq):
                cx.fail(s, label, 'it is a %s' % describe(w))
                continue
            if w.kind != 'list' and (
                path == 'the drawn value' or w.kind != 'tuple'
            ):
                cx.fail(s, label, 'it is a %s' % w.kind)
                continue
            cx.ok(label)
            for s2, x in elements(s, w):
                kind_check(cx, s2, x, tuple(want), path + '[]')
        else:
            if not isinstance(w, Geo):
                cx.fail(s, label, 'it is a %s' % describe(w))
            elif w.kind not in want:
                cx.fail(s, label, 'it is a %s (made at %s)' % (
                    w.kind, cx.I.site(w.site)))
            elif w.ctx is not None and w.ctx != cx.ctxname:
                cx.fail(
                    s, label, 'its class comes from the context %s (made '
                    'at %s)' % (w.ctx, cx.I.site(w.site)))
            else:
                cx.ok(label)
                for n, x in w.f:
                    sub = PARTS[w.kind].get(n)
                    if sub is not None:
                        kind_check(cx, s, x, sub, '%s.%s' % (path, n))


def describe(w):
    if isinstance(w, Seq):
        return w.kind
    if isinstance(w, Const):
        return repr(w.v)
    return type(w).__name__


# ------------------------------------------------------------- provenance
VERBATIM = (
    'points', 'multipoints', 'segments', 'boxes', 'triangular_contours',
    'rectangular_contours',
)


def rule_coords(cx, st, v):
    """Every coordinate was drawn from its axis's strategy."""
    yleaf = 'CY' if cx.y else 'CX'
    for s, path, w in fields(st, v):
        if not isinstance(w, Geo):
            if isinstance(w, Opq):
                cx.unknown('%s: coordinates of %s' % (cx.label, path))
            continue
        for n, x in w.f:
            if w.kind == 'Point' and n in 'xy':
                want = 'CX' if n == 'x' else yleaf
            elif w.kind == 'Box':
                want = 'CX' if n.endswith('x') else yleaf
            else:
                continue
            label = '%s: %s%s.%s is drawn from %s' % (
                cx.label, path, '', n,
                'x_coordinates' if want == 'CX' else 'y_coordinates')
            for s2, c in alts(s, x):
                if not isinstance(c, Sc):
                    if isinstance(c, (Const, Int, Geo, Seq)) or isinstance(
                        c, LibObj
                    ) and c.kind in ('float', 'str'):
                        cx.fail(s2, label, 'it is %s' % describe(c))
                    else:
                        cx.unknown(label)
                    continue
                e = c.prov.exact
                if e is not None and e <= {want}:
                    cx.ok(label)
                elif e is not None:
                    cx.fail(s2, label, 'it comes from %s (point made at %s)'
                            % (sorted(e - {want}), cx.I.site(w.site)))
                else:
                    p = refine_prov(s2, c)
                    if cx.name in VERBATIM:
                        cx.fail(s2, label, 'it is computed from drawn '
                                'coordinates (point made at %s)'
                                % cx.I.site(w.site))
                    elif want in p.lo and want in p.hi:
                        cx.ok(label.replace(
                            'is drawn from',
                            'lies between values drawn from'))
                    else:
                        cx.fail(s2, label, 'it is computed (point made at '
                                '%s)' % cx.I.site(w.site))


# ---------------------------------------------------------------- segments
def point_terms(st, v):
    out = []
    for s, w in alts(st, v):
        if not isinstance(w, Geo) or w.kind != 'Point':
            raise Un_('point')
        for s2, x in alts(s, w.get('x')):
            for s3, y in alts(s2, w.get('y')):
                if not isinstance(x, Sc) or not isinstance(y, Sc):
                    raise Un_('coordinate')
                out.append((s3, x.t, y.t))
    return out


def distinct(st, p, q):
    """Truth of p != q for coordinate pairs."""
    ne = []
    for a, b in zip(p, q):
        ne.append(f_lin(a - b - 1))
        ne.append(f_lin(b - a - 1))
    return entails(st, f_or(ne))


def rule_segments(cx, st, v):
    label = '%s: endpoints of every segment differ' % cx.label
    for s, path, w in fields(st, v):
        if not isinstance(w, Geo) or w.kind != 'Segment':
            if isinstance(w, Opq):
                cx.unknown(label)
            continue
        a, b = w.get('start'), w.get('end')
        for s2, x0, y0 in point_terms(s, a):
            for s3, x1, y1 in point_terms(s2, b):
                if 'nondegenerate' in w.tags or distinct(
                    s3, (x0, y0), (x1, y1)
                ):
                    cx.ok(label)
                elif 'edge' in w.tags and cx.name == 'mixes':
                    cx.unknown(label)
                else:
                    cx.fail(s3, label, 'segment made at %s may have equal '
                            'endpoints' % cx.I.site(w.site))


def rule_unique_points(cx, st, v):
    label = '%s: points of a multipoint are pairwise distinct' % cx.label
    for s, w in get(st, v, 'points'):
        for s2, q in alts(s, w):
            if not isinstance(q, Seq):
                raise Un_('points')
            if 'unique' in q.tags:
                cx.ok(label)
                continue
            it = q.items()
            if it is not None and all(
                distinct(s2, p[1:], r[1:])
                for i, a in enumerate(it) for b in it[:i]
                for p in point_terms(s2, a) for r in point_terms(s2, b)
            ):
                cx.ok(label)
            else:
                cx.fail(s2, label, 'the list of points is not known to be '
                        'free of repetitions')


def rule_boxes(cx, st, v):
    for s, w in alts(st, v):
        if not isinstance(w, Geo) or w.kind != 'Box':
            raise Un_('box')
        for axis in 'xy':
            lo, hi = w.get('min_' + axis), w.get('max_' + axis)
            label = '%s: min_%s < max_%s' % (cx.label, axis, axis)
            for s2, a in alts(s, lo):
                for s3, b in alts(s2, hi):
                    if not isinstance(a, Sc) or not isinstance(b, Sc):
                        raise Un_('coordinate')
                    if entails(s3, f_lin(b.t - a.t - 1)):
                        cx.ok(label)
                    else:
                        cx.fail(s3, label, 'box made at %s' % cx.I.site(
                            w.site))


def vertices_of(st, v):
    for s, w in get(st, v, 'vertices'):
        for s2, q in alts(s, w):
            if not isinstance(q, Seq):
                raise Un_('vertices')
            it = q.items()
            if it is None or q.perm:
                raise Un_('vertices are not enumerated')
            yield s2, w, it


def rule_triangles(cx, st, v):
    label = '%s: three vertices in counterclockwise order' % cx.label
    for s, q, it in vertices_of(st, v):
        if len(it) != 3:
            cx.fail(s, label, '%d vertices' % len(it))
            continue
        for s1, x0, y0 in point_terms(s, it[0]):
            for s2, x1, y1 in point_terms(s1, it[1]):
                for s3, x2, y2 in point_terms(s2, it[2]):
                    o = orientation(s3, (x0, y0), (x1, y1), (x2, y2))
                    if o == frozenset(['COUNTERCLOCKWISE']):
                        cx.ok(label)
                    else:
                        cx.fail(s3, label, 'the orientation may be %s' % (
                            ' or '.join(sorted(o))))


SIGNS = {
    'CLOCKWISE': 'COUNTERCLOCKWISE',
    'COUNTERCLOCKWISE': 'CLOCKWISE',
    'COLLINEAR': 'COLLINEAR',
}


def orientation(st, a, b, c):
    """Possible orientations of a triple (facts up to permutation)."""
    pts = (a, b, c)
    out = frozenset(SIGNS)
    for perm, sign in (
        ((0, 1, 2), 1), ((1, 2, 0), 1), ((2, 0, 1), 1),
        ((1, 0, 2), -1), ((0, 2, 1), -1), ((2, 1, 0), -1),
    ):
        k = ('Orientation',) + tuple(
            ('pt', pts[i][0], pts[i][1]) for i in perm
        )
        d = st.dom(k)
        if d is not None:
            out &= frozenset(
                x if sign > 0 else SIGNS[x] for x in d
            )
    return out


def rule_rectangles(cx, st, v):
    label = (
        '%s: the four corners of a proper axis-aligned rectangle, '
        'counterclockwise' % cx.label
    )
    for s, q, it in vertices_of(st, v):
        if len(it) != 4:
            cx.fail(s, label, '%d vertices' % len(it))
            continue
        pts = []
        for p in it:
            r = point_terms(s, p)
            if len(r) != 1:
                raise Un_('alternatives')
            pts.append(r[0][1:])
        done = False
        for k in range(4):
            (ax, ay), (bx, by), (cx_, cy), (dx, dy) = pts[k:] + pts[:k]
            f = f_and([
                f_eq(ay, by), f_eq(cx_, bx), f_eq(cy, dy), f_eq(dx, ax),
                f_lin(bx - ax - 1), f_lin(cy - by - 1),
            ])
            if entails(s, f):
                done = True
                break
        if done:
            cx.ok(label)
        else:
            cx.fail(s, label, 'the corners are not in the promised order')


RULES = {
    'sizes': rule_sizes,
    'kinds': rule_kinds,
    'coords': rule_coords,
    'segments': rule_segments,
    'unique_points': rule_unique_points,
    'boxes': rule_boxes,
    'triangles': rule_triangles,
    'rectangles': rule_rectangles,
}


class Cx:
    def __init__(self, I, name, none, y, ctx):
        self.I, self.name, self.none, self.y = I, name, none, y is True
        self.ctxname = ctx
        opts = []
        if none:
            opts.append('no maximum' if len(none) > 1 or len(
                spec.SIZES[name]) == 1 else '')
            opts[-1] = ', '.join('%s=None' % n for n in none)
        opts.append(
            'y same as x' if y == 'same' else 'y given' if y else 'y=None')
        self.label = '%s(%s)' % (name, '; '.join(opts))
        self.res = []
        self.where = None

    def ok(self, text):
        self.res.append({'ok': True, 'where': self.where,
                         'obligation': text, 'detail': ''})

    def fail(self, st, text, detail):
        guards = opaque_guards(st)
        self.res.append({
            'ok': None if guards else False, 'where': self.where,
            'obligation': text,
            'detail': detail + (
                ' [guarded by predicates this analysis cannot read]'
                if guards else ''),
        })

    def unknown(self, text):
        self.res.append({'ok': None, 'where': self.where,
                         'obligation': text, 'detail': 'unknown value'})


def opaque_guards(st):
    return [k for k in st.lits if k[0] == 'opq']


def draw_task(root, name, none, y, rule, ctx='C', part=None):
    I = engine(root)
    fn, _ = signature(I, name)
    if fn is None:
        raise LookupError(name)
    outs, raised, _ = build(I, name, none, ctx=ctx, y=y)
    outs = split(outs)
    if part is not None:
        outs = outs[part[0]::part[1]]
    cx = Cx(I, name, none, y, ctx or 'default')
    cx.where = I.site(fn.node)
    n = 0
    for out in outs:
        for st, v in draws(I, [out]):
            n += 1
            try:
                RULES[rule](cx, st, v)
            except Un_ as e:
                cx.unknown('%s: %s' % (cx.label, e))
    if not n and part is None:
        cx.res.append({'ok': None, 'where': cx.where,
                       'obligation': cx.label + ': no draw reached',
                       'detail': ''})
    return cx.res
