"""Operators: arithmetic, comparison, truth."""
from . import heap as H
from .state import (
    F,
    T,
    f_and,
    f_eq,
    f_lin,
    f_not,
    f_or,
    entails,
    ge,
    truth,
)
from .terms import A, L, Lin, ONE, ZERO, mk_extreme, mk_floordiv, mul
from .values import *
from .values import V

FLIP = {'CLOCKWISE': 'COUNTERCLOCKWISE', 'COUNTERCLOCKWISE': 'CLOCKWISE'}
FALSY = {'COLLINEAR'}


def as_bool(f):
    return TRUE if f == T else FALSE if f == F else Bool(f)


def opq_bool(*key):
    return Bool(('lit', ('opq',) + (key or (fresh_id('b'),))))


def int_of(v):
    """Lin of an integer-like determined value, else None."""
    if isinstance(v, Int):
        return v.l
    if isinstance(v, Const) and isinstance(v.v, bool):
        return L(int(v.v))
    return None


def split_un(v):
    return list(v.vs) if isinstance(v, Un) else [v]


# --------------------------------------------------------------- binary
def binop(self, op, a, b, st, node):
    if isinstance(a, Un) or isinstance(b, Un):
        out = []
        for x in split_un(a):
            for y in split_un(b):
                out.extend(self.binop(op, x, y, st.copy(), node))
        return out
    if isinstance(a, Bot) or isinstance(b, Bot):
        return []
    if (isinstance(a, Bool) and not isinstance(b, Bool)) or (
        isinstance(b, Bool) and not isinstance(a, Bool)
    ) or (isinstance(a, Bool) and op not in ('BitAnd', 'BitOr', 'BitXor')):
        out = []
        va = self.branch(st, a, node) if isinstance(a, Bool) else [(st, a)]
        for s, x in va:
            x = Const(x) if isinstance(x, bool) else x
            vb = (
                self.branch(s, b, node) if isinstance(b, Bool) else [(s, b)]
            )
            for s2, y in vb:
                y = Const(y) if isinstance(y, bool) else y
                out.extend(self.binop(op, x, y, s2, node))
        return out
    if isinstance(a, Bool) and isinstance(b, Bool):
        if op == 'BitAnd':
            return [(st, as_bool(f_and([a.f, b.f])))]
        if op == 'BitOr':
            return [(st, as_bool(f_or([a.f, b.f])))]
        return [(st, opq_bool())]
    la, lb = int_of(a), int_of(b)
    if la is not None and lb is not None:
        return int_op(self, op, la, lb, st, node)
    if isinstance(a, (Sc,)) or isinstance(b, Sc):
        return [(st, sc_arith(self, op, a, b, st))]
    if isinstance(a, Strat) and isinstance(b, Strat) and op == 'BitOr':
        return [(st, Strat('or', (a, b), (), self.site(node)))]
    qa, qb = seq_like(a, st), seq_like(b, st)
    if op == 'Add' and qa and qb:
        out = []
        for s, x in self.as_seq(a, st, node):
            for s2, y in self.as_seq(b, s, node):
                if x.perm:
                    x = self.weak_elem(x)
                if y.perm:
                    y = self.weak_elem(y)
                r = Seq(
                    x.kind,
                    x.parts + y.parts,
                    False,
                    frozenset(),
                    fresh_id('q'),
                    frozenset(),
                    self.site(node),
                )
                out.append((s2, self.rewrap(a, r, s2, node)))
        return out
    if op == 'Mult' and (qa and lb is not None or qb and la is not None):
        sv, n = (a, lb) if qa else (b, la)
        out = []
        for s, x in self.as_seq(sv, st, node):
            if n.const is not None and n.const * len(x.parts) <= 12:
                parts = x.parts * max(n.const, 0)
                r = self.mk_tuple((), x.kind).replace(parts=parts)
            else:
                if not ge(s, n, ZERO):
                    n = mk_extreme('max', (n, ZERO))
                el = self.weak_elem(x)
                t = el.parts[0].tmpl if el.parts else BOT
                ln = mul(x.length(), n)
                r = self.mk_span(x.kind, ln, t)
            out.append((s, self.rewrap(sv, r, s, node)))
        return out
    if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor') and (qa or qb):
        out = []
        for s, x in self.as_seq(a, st, node):
            for s2, y in self.as_seq(b, s, node):
                if op in ('BitOr', 'BitXor'):
                    j = self.weak_elem(
                        self.mk_tuple((), 'set').replace(
                            parts=self.weak_elem(x).parts
                            + self.weak_elem(y).parts
                        )
                    )
                    subs = frozenset()
                else:
                    j = self.weak_elem(x)
                    subs = x.subs | ({x.sid} if x.sid else set())
                t = j.parts[0].tmpl if j.parts else BOT
                n = self.nn_atom(s2)
                lim = x.length() + (
                    y.length() if op in ('BitOr', 'BitXor') else ZERO
                )
                s2.assume(f_lin(lim - n))
                r = self.mk_span('set', n, t).replace(
                    subs=frozenset(subs),
                    tags=frozenset({'unordered', 'unique'}),
                )
                out.append((s2, self.alloc(s2, 'set', r, node)))
        return out
    if isinstance(a, LibObj) and a.kind == 'float' or (
        isinstance(b, LibObj) and b.kind == 'float'
    ) or (isinstance(a, Const) and isinstance(a.v, float)) or (
        isinstance(b, Const) and isinstance(b.v, float)
    ):
        return [(st, LibObj('float', fresh('f') + st.ictx))]
    if op == 'Mod' and isinstance(a, Const) and isinstance(a.v, str):
        return [(st, LibObj('str', fresh_id('fmt'), (a, b)))]
    if isinstance(a, (Const, LibObj)) and is_str(a) and is_str(b):
        return [(st, LibObj('str', fresh_id('cat'), (a, b)))]
    if isinstance(a, Const) and a.v is None or (
        isinstance(b, Const) and b.v is None
    ):
        if op == 'BitOr' and not isinstance(a, Strat) and not isinstance(
            b, Strat
        ):
            return [(st, Opq(fresh_id('ty'), 'union type'))]
        self.raise_(st, Lib('builtins.TypeError'), node)
        return []
    return [(st, Opq(fresh('bin') + st.ictx, '%s result' % op))]


def is_str(v):
    return (isinstance(v, Const) and isinstance(v.v, str)) or (
        isinstance(v, LibObj) and v.kind == 'str'
    )


def seq_like(v, st):
    if isinstance(v, Seq):
        return True
    if isinstance(v, Ref):
        o = st.heap.get(next(iter(v.ids)))
        return isinstance(o, H.HSeq)
    return False


def int_op(self, op, a, b, st, node):
    if op == 'Add':
        return [(st, Int(a + b))]
    if op == 'Sub':
        return [(st, Int(a - b))]
    if op == 'Mult':
        return [(st, Int(mul(a, b)))]
    ca, cb = a.const, b.const
    if op == 'FloorDiv':
        if cb == 0:
            self.raise_(st, Lib('builtins.ZeroDivisionError'), node)
            return []
        if cb is None:
            t = truth(st, f_lin(b - 1))
            if t is None:
                # non-positive divisor: keep an uninterpreted quotient
                s0 = st.copy()
                if s0.assume(f_eq(b, ZERO)):
                    self.raise_(s0, Lib('builtins.ZeroDivisionError'), node)
                if not st.assume(f_or([f_lin(b - 1), f_lin(-b - 1)])):
                    return []
                t = truth(st, f_lin(b - 1))
            q = mk_floordiv(a, b)
            if t:
                self.posdiv(q)
                self.posdiv_nonneg(q, a, st)
            return [(st, Int(q))]
        return [(st, Int(mk_floordiv(a, b)))]
    if op == 'Mod':
        if cb == 0:
            self.raise_(st, Lib('builtins.ZeroDivisionError'), node)
            return []
        if cb is not None and ca is not None:
            return [(st, I(ca % cb))]
        pos = (cb is not None and cb > 0) or ge(st, b, ONE)
        if pos and ge(st, a, ZERO):
            if ge(st, b - 1, a):
                return [(st, Int(a))]
        at = ('%', a, b)
        if pos:
            from .state import POSDIV

            POSDIV.add(at)
        return [(st, Int(A(at)))]
    if op == 'Pow' and ca is not None and cb is not None and 0 <= cb < 64:
        return [(st, I(ca**cb))]
    if op in ('BitAnd', 'BitOr', 'BitXor', 'LShift', 'RShift'):
        if ca is not None and cb is not None and cb >= 0:
            r = {
                'BitAnd': lambda: ca & cb,
                'BitOr': lambda: ca | cb,
                'BitXor': lambda: ca ^ cb,
                'LShift': lambda: ca << min(cb, 64),
                'RShift': lambda: ca >> cb,
            }[op]()
            return [(st, I(r))]
        at = fresh('bit') + st.ictx
        r = A(at)
        if op == 'BitAnd':
            for x in (a, b):
                if ge(st, x, ZERO):
                    st.assume(f_lin(r))
                    st.assume(f_lin(x - r))
        if op == 'BitOr' and ge(st, a, ZERO) and ge(st, b, ZERO):
            st.assume(f_lin(r - a))
            st.assume(f_lin(r - b))
            st.assume(f_lin(a + b - r))
        if op == 'RShift' and ge(st, a, ZERO) and ge(st, b, ZERO):
            st.assume(f_lin(r))
            st.assume(f_lin(a - r))
        return [(st, Int(r))]
    if op == 'Div':
        return [(st, LibObj('float', fresh('f') + st.ictx))]
    return [(st, Int(A(fresh('int') + st.ictx)))]


def sc_arith(self, op, a, b, st):
    la = int_of(b)
    if la is not None and la.const == 0 and op in ('Add', 'Sub'):
        return a
    return Sc(
        A(fresh('ar') + st.ictx),
        Prov(None, frozenset(), frozenset()),
        (),
    )


# --------------------------------------------------------------- unary
def unary(self, op, v, st, node):
    if isinstance(v, Un):
        out = []
        for w in v.vs:
            out.extend(self.unary(op, w, st.copy(), node))
        return out
    if isinstance(v, Bot):
        return []
    if op == 'Not':
        f = self.to_formula(v, st)
        if f is None:
            return [
                (s, Const(not b)) for s, b in self.branch(st, v, node)
            ]
        return [(st, as_bool(f_not(f)))]
    if isinstance(v, Bool):
        out = []
        for s, b in self.branch(st, v, node):
            out.extend(self.unary(op, I(int(b)), s, node))
        return out
    l = int_of(v)
    if l is not None:
        if op == 'USub':
            return [(st, Int(-l))]
        if op == 'UAdd':
            return [(st, Int(l))]
        if op == 'Invert':
            return [(st, Int(-l - 1))]
    if isinstance(v, Sc):
        if op == 'UAdd':
            return [(st, v)]
        return [(st, sc_arith(self, op, v, v, st))]
    if isinstance(v, (EnumVar, Enum)) and op == 'USub':
        if isinstance(v, EnumVar):
            return [(st, EnumVar(v.cls, v.k, -v.sign))]
        return [(st, Enum(v.cls, FLIP.get(v.name, v.name)))]
    return [(st, Opq(fresh('un') + st.ictx, op))]


# --------------------------------------------------------------- truth
def to_formula(self, v, st):
    """Formula of the truth value, or None when it needs case splitting."""
    if isinstance(v, Bool):
        return v.f
    if isinstance(v, Const):
        return T if v.v else F
    if isinstance(v, Int):
        l = v.l
        if l.const is not None:
            return T if l.const else F
        if ge(st, l, ZERO):
            return f_lin(l - 1)
        return f_or([f_lin(l - 1), f_lin(-l - 1)])
    if isinstance(v, Seq):
        return f_lin(v.length() - 1)
    if isinstance(v, Ref):
        if len(v.ids) != 1:
            return None
        o = st.heap.get(next(iter(v.ids)))
        if isinstance(o, H.HSeq):
            if o.summary:
                return ('lit', ('opq', fresh_id('ne')))
            return f_lin(o.seq.length() - 1)
        if isinstance(o, H.HDict):
            if isinstance(o.sk, Bot):
                return T if o.items else F
            return ('lit', ('opq', fresh_id('ne')))
        return T
    if isinstance(v, Enum):
        if v.cls == 'Orientation':
            return F if v.name in FALSY else T
        return ('lit', ('opq', ('enum', v.cls, v.name)))
    if isinstance(v, EnumVar):
        if v.cls == 'Orientation':
            return (
                'in', v.k, frozenset(['CLOCKWISE', 'COUNTERCLOCKWISE'])
            )
        return ('lit', ('opq', fresh_id('ev')))
    if isinstance(
        v,
        (
            Geo, Fn, Bound, Meth, Lib, Mod, Cls, Partial, Composed, Ctx,
            CtxAttr, Strat,
        ),
    ):
        return T
    if isinstance(v, Sc):
        return ('lit', ('opq', ('nz', v.t)))
    if isinstance(v, LibObj):
        if v.kind == 'str':
            return ('lit', ('opq', ('str', v.t)))
        return ('lit', ('opq', ('lo', v.t)))
    if isinstance(v, Opq):
        return ('lit', ('opq', ('tr', v.t)))
    if isinstance(v, Bot):
        return F
    return None


def branch(self, st, v, node):
    """[(refined state, bool)]"""
    if isinstance(v, Un):
        out = []
        for w in v.vs:
            out.extend(self.branch(st.copy(), w, node))
        return out
    if isinstance(v, Bot):
        return []
    f = self.to_formula(v, st)
    if f is None:
        return [(st.copy(), True), (st, False)]
    if f == T:
        return [(st, True)]
    if f == F:
        return [(st, False)]
    t = truth(st, f)
    if t is not None:
        return [(st, t)]
    out = []
    s2 = st.copy()
    if s2.assume(f):
        out.append((s2, True))
    if st.assume(f_not(f)):
        out.append((st, False))
    return out


# ----------------------------------------------------------- comparison
SWAP = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}


def compare(self, op, a, b, st, node):
    if isinstance(a, Un) or isinstance(b, Un):
        out = []
        for x in split_un(a):
            for y in split_un(b):
                out.extend(self.compare(op, x, y, st.copy(), node))
        return out
    if isinstance(a, Bot) or isinstance(b, Bot):
        return []
    if op in ('IsNot', 'NotEq', 'NotIn'):
        pos = {'IsNot': 'Is', 'NotEq': 'Eq', 'NotIn': 'In'}[op]
        out = []
        for s, r in self.compare(pos, a, b, st, node):
            out.extend(self.unary('Not', r, s, node))
        return out
    if op == 'In':
        return self.contains(b, a, st, node)
    # booleans against booleans / integers
    if isinstance(a, Bool) and isinstance(b, Const) and isinstance(b.v, bool):
        if op in ('Is', 'Eq'):
            return [(st, as_bool(a.f if b.v else f_not(a.f)))]
    if isinstance(b, Bool) and isinstance(a, Const) and isinstance(a.v, bool):
        if op in ('Is', 'Eq'):
            return [(st, as_bool(b.f if a.v else f_not(b.f)))]
    if isinstance(a, Bool) and isinstance(b, Bool) and op in ('Is', 'Eq'):
        return [
            (
                st,
                as_bool(
                    f_or(
                        [
                            f_and([a.f, b.f]),
                            f_and([f_not(a.f), f_not(b.f)]),
                        ]
                    )
                ),
            )
        ]
    if isinstance(a, Bool) or isinstance(b, Bool):
        out = []
        va = self.branch(st, a, node) if isinstance(a, Bool) else [(st, a)]
        for s, x in va:
            x = Const(x) if isinstance(x, bool) else x
            vb = (
                self.branch(s, b, node) if isinstance(b, Bool) else [(s, b)]
            )
            for s2, y in vb:
                y = Const(y) if isinstance(y, bool) else y
                out.extend(self.compare(op, x, y, s2, node))
        return out
    if op == 'Is':
        return [(st, as_bool(self.identity(a, b, st)))]
    la, lb = int_of(a), int_of(b)
    if la is not None and lb is not None:
        if op == 'Eq':
            return [(st, as_bool(f_eq(la, lb)))]
        f = {
            'Lt': lambda: f_lin(lb - la - 1),
            'LtE': lambda: f_lin(lb - la),
            'Gt': lambda: f_lin(la - lb - 1),
            'GtE': lambda: f_lin(la - lb),
        }[op]()
        return [(st, as_bool(f))]
    if isinstance(a, Sc) and isinstance(b, Sc):
        return [(st, as_bool(self.sc_cmp(op, a, b, st)))]
    if op == 'Eq':
        if isinstance(a, (Enum, EnumVar)) or isinstance(b, (Enum, EnumVar)):
            return [(st, as_bool(self.identity(a, b, st)))]
        if isinstance(a, Geo) and isinstance(b, Geo):
            return [(st, as_bool(self.geo_eq(a, b, st)))]
        if isinstance(a, Const) and isinstance(b, Const):
            return [(st, TRUE if a.v == b.v else FALSE)]
        if isinstance(a, Const) and a.v is None or (
            isinstance(b, Const) and b.v is None
        ):
            return [(st, as_bool(self.identity(a, b, st)))]
        if isinstance(a, (Fn, Lib, Cls, CtxAttr, Partial, Composed)) and (
            isinstance(b, (Fn, Lib, Cls, CtxAttr, Partial, Composed))
        ):
            return [(st, as_bool(self.identity(a, b, st)))]
        qa = seq_like(a, st)
        qb = seq_like(b, st)
        if qa and qb:
            out = []
            for s, x in self.as_seq(a, st, node):
                for s2, y in self.as_seq(b, s, node):
                    xi, yi = x.items(), y.items()
                    if xi is not None and yi is not None:
                        if len(xi) != len(yi):
                            out.append((s2, FALSE))
                            continue
                        if not xi:
                            out.append((s2, TRUE))
                            continue
                        cur = [(s2, [])]
                        for u, w in zip(xi, yi):
                            cur = [
                                (s4, fs + [r])
                                for s3, fs in cur
                                for s4, r in self.compare(
                                    'Eq', u, w, s3, node
                                )
                            ]
                        for s3, fs in cur:
                            ff = [self.to_formula(r, s3) for r in fs]
                            out.append(
                                (
                                    s3,
                                    opq_bool()
                                    if any(g is None for g in ff)
                                    else as_bool(f_and(ff)),
                                )
                            )
                        continue
                    if x == y:
                        out.append((s2, TRUE))
                        continue
                    yl, xl = y.length(), x.length()
                    if not xi and xi is not None:
                        out.append((s2, as_bool(f_lin(-yl))))
                    elif not yi and yi is not None:
                        out.append((s2, as_bool(f_lin(-xl))))
                    else:
                        lit = ('lit', ('opq', fresh_id('sq')))
                        out.append(
                            (s2, as_bool(f_and([f_eq(xl, yl), lit])))
                        )
            return out
        if a == b and not isinstance(a, (Opq,)):
            return [(st, TRUE)]
        return [(st, opq_bool('eq', a, b))]
    # ordering of sequences: lexicographic on items
    if isinstance(a, Seq) and isinstance(b, Seq):
        xi, yi = a.items(), b.items()
        if xi and yi and op in ('Lt', 'Gt', 'LtE', 'GtE'):
            r = self.lex(op, xi, yi, st, node)
            if r is not None:
                return [(st, as_bool(r))]
    if isinstance(a, Geo) and isinstance(b, Geo):
        if a.kind == 'Point' and b.kind == 'Point':
            r = self.lex(
                op,
                [a.get('x'), a.get('y')],
                [b.get('x'), b.get('y')],
                st,
                node,
            )
            if r is not None:
                return [(st, as_bool(r))]
    return [(st, opq_bool('cmp', op, a, b))]


def lex(self, op, xs, ys, st, node):
    strict = op in ('Lt', 'Gt')
    if op in ('Gt', 'GtE'):
        xs, ys = ys, xs
    f = (
        (F if len(xs) >= len(ys) else T)
        if strict
        else (T if len(xs) <= len(ys) else F)
    )
    for x, y in reversed(list(zip(xs, ys))):
        lt = eqf = None
        if isinstance(x, Sc) and isinstance(y, Sc):
            lt, eqf = self.sc_cmp('Lt', x, y, st), self.sc_cmp(
                'Eq', x, y, st
            )
        else:
            la, lb = int_of(x), int_of(y)
            if la is None or lb is None:
                if isinstance(x, Geo) and isinstance(y, Geo):
                    r = self.lex(
                        'Lt',
                        [x.get('x'), x.get('y')],
                        [y.get('x'), y.get('y')],
                        st,
                        node,
                    ) if x.kind == 'Point' == y.kind else None
                    if r is None:
                        return None
                    lt, eqf = r, self.geo_eq(x, y, st)
                else:
                    return None
            else:
                lt, eqf = f_lin(lb - la - 1), f_eq(la, lb)
        f = f_or([lt, f_and([eqf, f])])
    return f


def sc_pair(a, b):
    """Two linear terms whose order is the order of the scalars."""
    from .state import SORTED

    vb = dict(b.views)
    for s, i in a.views:
        if s in vb and SORTED.get(s):
            return i, vb[s]
    return a.t, b.t


def sc_cmp(self, op, a, b, st):
    x, y = sc_pair(a, b)
    if op == 'Eq':
        return f_eq(x, y)
    if op == 'Lt':
        return f_lin(y - x - 1)
    if op == 'LtE':
        return f_lin(y - x)
    if op == 'Gt':
        return f_lin(x - y - 1)
    return f_lin(x - y)


def geo_eq(self, a, b, st):
    if a is b or a == b:
        return T
    if a.kind != b.kind:
        return F
    if a.kind == 'Point':
        fs = []
        for n in ('x', 'y'):
            u, w = a.get(n), b.get(n)
            if isinstance(u, Sc) and isinstance(w, Sc):
                fs.append(self.sc_cmp('Eq', u, w, st))
            else:
                fs.append(('lit', ('opq', ('eq', u, w))))
        return f_and(fs)
    return ('lit', ('opq', ('geq', a.t, b.t)))


def identity(self, a, b, st):
    """Formula for `a is b`."""
    if isinstance(a, Const) or isinstance(b, Const):
        if isinstance(a, Const) and isinstance(b, Const):
            return T if a == b else F
        c, o = (a, b) if isinstance(a, Const) else (b, a)
        if isinstance(o, Opq):
            return ('lit', ('opq', ('isnone', o.t, c)))
        if isinstance(o, Bool) and isinstance(c.v, bool):
            return o.f if c.v else f_not(o.f)
        if is_str(o) and is_str(c):
            return ('lit', ('opq', fresh_id('is')))
        return F
    if isinstance(a, (Enum, EnumVar)) and isinstance(b, (Enum, EnumVar)):
        if isinstance(a, Enum) and isinstance(b, Enum):
            return T if (a.cls, a.name) == (b.cls, b.name) else F
        if isinstance(a, Enum):
            a, b = b, a
        if isinstance(b, Enum):
            n = b.name if a.sign > 0 else FLIP.get(b.name, b.name)
            return ('in', a.k, frozenset([n]))
        if a.cls != b.cls:
            return F
        if a.k == b.k:
            if a.sign == b.sign:
                return T
            return ('in', a.k, frozenset(['COLLINEAR']))
        from .state import DOMAINS

        dom = DOMAINS.get(a.cls)
        if dom is None:
            return ('lit', ('opq', fresh_id('is')))
        alts = []
        for n in dom:
            na = n if a.sign > 0 else FLIP.get(n, n)
            nb = n if b.sign > 0 else FLIP.get(n, n)
            alts.append(
                f_and(
                    [
                        ('in', a.k, frozenset([na])),
                        ('in', b.k, frozenset([nb])),
                    ]
                )
            )
        return f_or(alts)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if not (a.ids & b.ids):
            return F
        if len(a.ids) == 1 and a.ids == b.ids:
            o = st.heap.get(next(iter(a.ids)))
            if o is not None and not o.summary:
                return T
        return ('lit', ('opq', fresh_id('is')))
    fnt = (Fn, Lib, Cls, CtxAttr, Ctx, Mod)
    if isinstance(a, fnt) or isinstance(b, fnt):
        if isinstance(a, Opq) or isinstance(b, Opq):
            return ('lit', ('opq', fresh_id('is')))
        return T if type(a) is type(b) and a == b else F
    if isinstance(a, Geo) and isinstance(b, Geo):
        if a.kind != b.kind:
            return F
        if a is b or a == b:
            return T
        return f_and(
            [self.geo_eq(a, b, st), ('lit', ('opq', fresh_id('is')))]
        )
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a is b:
            return T
        return ('lit', ('opq', fresh_id('is')))
    if isinstance(a, Strat) and isinstance(b, Strat):
        return T if a == b else F
    if isinstance(a, Sc) and isinstance(b, Sc):
        return f_and(
            [
                self.sc_cmp('Eq', a, b, st),
                T if a == b else ('lit', ('opq', fresh_id('is'))),
            ]
        )
    la, lb = int_of(a), int_of(b)
    if la is not None and lb is not None:
        return f_eq(la, lb)
    if isinstance(a, Opq) or isinstance(b, Opq):
        return ('lit', ('opq', fresh_id('is')))
    if type(a) is not type(b):
        return F
    if a == b:
        return T
    return ('lit', ('opq', fresh_id('is')))


def contains(self, cont, x, st, node):
    if isinstance(cont, Un):
        out = []
        for w in cont.vs:
            out.extend(self.contains(w, x, st.copy(), node))
        return out
    if isinstance(cont, Const) and isinstance(cont.v, str):
        if isinstance(x, Const) and isinstance(x.v, str):
            return [(st, TRUE if x.v in cont.v else FALSE)]
        return [(st, opq_bool())]
    if isinstance(cont, Ref):
        o = st.heap.get(next(iter(cont.ids)))
        if isinstance(o, H.HDict):
            if isinstance(o.sk, Bot):
                cur = [(st, [])]
                for k, _ in o.items:
                    cur = [
                        (s2, fs + [r])
                        for s, fs in cur
                        for s2, r in self.compare('Eq', x, k, s, node)
                    ]
                return [
                    (
                        s,
                        as_bool(
                            f_or([self.to_formula(r, s) or T for r in fs])
                        ),
                    )
                    for s, fs in cur
                ]
            return [(st, opq_bool())]
    out = []
    if not (isinstance(cont, (Seq, Ref))):
        return [(st, opq_bool())]
    for s, q in self.as_seq(cont, st, node):
        if (
            len(q.parts) == 1
            and isinstance(q.parts[0], Span)
            and q.kind == 'range'
            and int_of(x) is not None
        ):
            p = q.parts[0]
            if isinstance(p.tmpl, Int):
                lo = p.tmpl.l
                from .terms import subst_lin

                a = subst_lin(lo, {p.ix: ZERO})
                d = (subst_lin(lo, {p.ix: ONE}) - a).const
                if d == 1:
                    v = int_of(x)
                    out.append(
                        (
                            s,
                            as_bool(
                                f_and(
                                    [
                                        f_lin(v - a),
                                        f_lin(a + p.n - 1 - v),
                                    ]
                                )
                            ),
                        )
                    )
                    continue
        it = q.items()
        if it is not None and len(it) <= 6:
            cur = [(s, [])]
            for k in it:
                cur = [
                    (s3, fs + [r])
                    for s2, fs in cur
                    for s3, r in self.compare('Eq', x, k, s2, node)
                ]
            for s2, fs in cur:
                ff = [self.to_formula(r, s2) for r in fs]
                out.append(
                    (
                        s2,
                        opq_bool()
                        if any(g is None for g in ff)
                        else as_bool(f_or(ff)),
                    )
                )
            continue
        out.append((s, opq_bool()))
    return out


def posdiv(self, q):
    from .state import POSDIV

    for a in q.c:
        if a[0] == '//':
            POSDIV.add(a)


def posdiv_nonneg(self, q, a, st):
    from .state import EXTRA_AXIOMS

    if ge(st, a, ZERO):
        for x in q.c:
            if x[0] == '//':
                EXTRA_AXIOMS.setdefault(x, [A(x), x[1] - A(x)])
