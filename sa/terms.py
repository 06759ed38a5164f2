"""Linear terms over symbolic atoms and the relational (linear-constraint) domain.

A term is an integer-linear combination of atoms.  Atoms are nested tuples,
possibly containing other terms.  ``Lin`` objects are immutable.

The domain operations (entailment / emptiness of a constraint system) are
implemented here with an exact rational Farkas-style simplex, so that no
external tool takes part in any verdict.
"""
from fractions import Fraction
from math import gcd

_intern_cache = {}


class Lin:
    __slots__ = ('c', 'k', '_h', '_n')

    def __init__(self, c, k):
        self.c = c  # dict atom -> int
        self.k = k
        self._h = None
        self._n = None

    def __eq__(self, other):
        if self is other:
            return True
        return (
            isinstance(other, Lin) and self.k == other.k and self.c == other.c
        )

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.k, frozenset(self.c.items())))
        return self._h

    @property
    def const(self):
        return self.k if not self.c else None

    def __add__(self, o):
        if isinstance(o, int):
            return Lin(self.c, self.k + o)
        c = dict(self.c)
        for a, v in o.c.items():
            n = c.get(a, 0) + v
            if n:
                c[a] = n
            else:
                c.pop(a, None)
        return Lin(c, self.k + o.k)

    def __neg__(self):
        return Lin({a: -v for a, v in self.c.items()}, -self.k)

    def __sub__(self, o):
        if isinstance(o, int):
            return Lin(self.c, self.k - o)
        return self + (-o)

    def scale(self, n):
        if n == 0:
            return ZERO
        return Lin({a: v * n for a, v in self.c.items()}, self.k * n)

    def single(self):
        """The atom when this is exactly one atom with coefficient 1."""
        if self.k == 0 and len(self.c) == 1:
            (a, v), = self.c.items()
            if v == 1:
                return a
        return None

    def __repr__(self):
        return show_lin(self)


def L(n):
    return Lin({}, n)


ZERO = L(0)
ONE = L(1)


def A(atom):
    return Lin({atom: 1}, 0)


def _akey(a):
    return repr(a)


def mul(x, y):
    if x.const is not None:
        return y.scale(x.const)
    if y.const is not None:
        return x.scale(y.const)
    out = {}
    k = 0

    def put(m, v):
        n = out.get(m, 0) + v
        if n:
            out[m] = n
        else:
            out.pop(m, None)

    for a, v in list(x.c.items()) + ([(None, x.k)] if x.k else []):
        for b, w in list(y.c.items()) + ([(None, y.k)] if y.k else []):
            if a is None and b is None:
                k += v * w
            elif a is None:
                put(b, v * w)
            elif b is None:
                put(a, v * w)
            else:
                put(monomial(a, b), v * w)
    return Lin(out, k)


def factors(a):
    return list(a[1]) if a[0] == '*' else [a]


def monomial(a, b):
    fs = factors(a) + factors(b)
    fs.sort(key=_akey)
    return ('*', tuple(fs))


# ---------------------------------------------------------------- printing
def show_atom(a):
    if not isinstance(a, tuple):
        return str(a)
    h = a[0]
    if h == 'p':
        return str(a[1])
    if h in ('max', 'min'):
        return '%s(%s)' % (h, ', '.join(show_lin(x) for x in a[1]))
    if h == '//':
        return '(%s)//(%s)' % (show_lin(a[1]), show_lin(a[2]))
    if h == '%':
        return '(%s)%%(%s)' % (show_lin(a[1]), show_lin(a[2]))
    if h == '*':
        return '*'.join(show_atom(x) for x in a[1])
    return '<' + ' '.join(
        show_lin(x) if isinstance(x, Lin) else show_atom(x) for x in a
    ) + '>'


def show_lin(l):
    parts = []
    for a, v in l.c.items():
        s = show_atom(a)
        if v == 1:
            parts.append('+ ' + s)
        elif v == -1:
            parts.append('- ' + s)
        else:
            parts.append('%s %d*%s' % ('+' if v > 0 else '-', abs(v), s))
    if l.k or not parts:
        parts.append('%s %d' % ('+' if l.k >= 0 else '-', abs(l.k)))
    s = ' '.join(parts)
    return s[2:] if s.startswith('+ ') else s


# ----------------------------------------------------------- substitution
def subst_term(t, m):
    """Substitute inside a term; m maps atoms -> Lin (or atoms -> atom)."""
    if isinstance(t, Lin):
        return subst_lin(t, m)
    if isinstance(t, tuple):
        r = m.get(t)
        if r is not None:
            s = r.single() if isinstance(r, Lin) else r
            if s is not None:
                return s
            return t  # non-atomic replacement in an atomic position
        out = None
        for i, x in enumerate(t):
            if isinstance(x, (tuple, Lin)):
                y = subst_term(x, m)
                if y is not x:
                    if out is None:
                        out = list(t)
                    out[i] = y
        return t if out is None else rebuild(tuple(out))
    return t


def rebuild(a):
    return a


def subst_lin(l, m):
    if not l.c or not m:
        return l
    changed = False
    acc = L(l.k)
    for a, v in l.c.items():
        r = subst_atom(a, m)
        if r is None:
            acc = acc + Lin({a: v}, 0)
        else:
            changed = True
            acc = acc + r.scale(v)
    return acc if changed else l


_mention_cache = {}


def atoms_in(t, acc):
    """All atoms nested anywhere in a term."""
    if isinstance(t, Lin):
        for a in t.c:
            atoms_in(a, acc)
    elif isinstance(t, tuple):
        if t in acc:
            return
        acc.add(t)
        for x in t:
            if isinstance(x, (tuple, Lin)):
                atoms_in(x, acc)


def nested_atoms(a):
    r = _mention_cache.get(a)
    if r is None:
        acc = set()
        atoms_in(a, acc)
        r = _mention_cache[a] = frozenset(acc)
        if len(_mention_cache) > 400000:
            _mention_cache.clear()
    return r


def subst_atom(a, m):
    """None when unchanged, else the replacing Lin."""
    r = m.get(a)
    if r is not None:
        return r if isinstance(r, Lin) else A(r)
    na = nested_atoms(a)
    if not any(x in na for x in m):
        return None
    h = a[0]
    if h == '*':
        acc = ONE
        for f in a[1]:
            fr = subst_atom(f, m)
            acc = mul(acc, A(f) if fr is None else fr)
        return acc
    if h == '//':
        return mk_floordiv(subst_lin(a[1], m), subst_lin(a[2], m))
    if h in ('max', 'min'):
        return mk_extreme(h, [subst_lin(x, m) for x in a[1]])
    b = subst_term(a, m)
    return A(b)


def mk_floordiv(x, y):
    if y.const is not None and y.const > 0:
        d = y.const
        if x.const is not None:
            return L(x.const // d)
        if d == 1:
            return x
        whole = {}
        rest = {}
        for a, v in x.c.items():
            if v % d == 0:
                whole[a] = v // d
            else:
                rest[a] = v
        if not rest:
            return Lin(whole, x.k // d)
        inner = Lin(rest, x.k % d)
        return Lin(whole, x.k // d) + A(('//', inner, y))
    return A(('//', x, y))


def mk_extreme(h, args):
    """max/min of linear terms (flattened, with constant differences folded)."""
    flat = []
    for a in args:
        s = a.single()
        if s is not None and s[0] == h:
            flat.extend(s[1])
        else:
            flat.append(a)
    best = []
    for a in flat:
        placed = False
        for i, b in enumerate(best):
            d = (a - b).const
            if d is not None:
                if (d > 0) == (h == 'max') and d != 0:
                    best[i] = a
                placed = True
                break
        if not placed:
            best.append(a)
    if len(best) == 1:
        return best[0]
    best.sort(key=repr)
    return A((h, tuple(best)))


# ----------------------------------------------------- feasibility (exact)
def normalize(l):
    """gcd-tighten an integer constraint l >= 0."""
    if not l.c:
        return l
    g = 0
    for v in l.c.values():
        g = gcd(g, v)
        if g == 1:
            return l
    if g > 1:
        return Lin({a: v // g for a, v in l.c.items()}, l.k // g)
    return l


_feas_cache = {}
_negs = {}
_ids = {}


def _aid(a):
    """A small integer standing for an atom (tuples rehash on every use)."""
    n = _ids.get(a)
    if n is None:
        n = _ids[a] = len(_ids)
    return n


def infeasible(cons):
    """True when the conjunction of cons (each >= 0) has no rational solution
    (after integer gcd-tightening of each constraint)."""
    cs = []
    seen = {}
    for l in cons:
        nk = l._n
        if nk is None:
            m = normalize(l)
            nk = l._n = (frozenset([
                (_aid(a), v) for a, v in m.c.items()
            ]), m.k)
        key, k = nk
        if not key:
            if k < 0:
                return True
            continue
        old = seen.get(key)
        if old is None or k < old:
            seen[key] = k
    if not seen:
        return False
    ck = frozenset(seen.items())
    r = _feas_cache.get(ck)
    if r is None:
        for key, k in seen.items():
            neg = _negs.get(key)
            if neg is None:
                neg = _negs[key] = frozenset([(a, -v) for a, v in key])
            k2 = seen.get(neg)
            if k2 is not None and k + k2 < 0:
                _feas_cache[ck] = True
                return True
        r = _farkas([(dict(key), k) for key, k in seen.items()])
        if len(_feas_cache) > 300000:
            _feas_cache.clear()
        _feas_cache[ck] = r
    return r


def _farkas(cons):
    # eliminate atoms with single-signed occurrence (cannot take part)
    while True:
        pos, neg = {}, {}
        for c, _ in cons:
            for a, v in c.items():
                if v > 0:
                    pos[a] = pos.get(a, 0) + 1
                else:
                    neg[a] = neg.get(a, 0) + 1
        bad = {a for a in pos if a not in neg} | {
            a for a in neg if a not in pos
        }
        if not bad:
            break
        n = [(c, k) for c, k in cons if not any(a in bad for a in c)]
        cons = n
        if not cons:
            return False
    if not cons:
        return False
    if not any(k < 0 for _, k in cons):
        return False
    # cheap Fourier-Motzkin elimination while it does not grow
    cons = {frozenset(c.items()): k for c, k in cons}
    while True:
        occ = {}
        for c in cons:
            for a, v in c:
                e = occ.setdefault(a, [0, 0])
                e[v > 0] += 1
        if not occ:
            return False
        a, (n, p) = min(
            occ.items(), key=lambda kv: kv[1][0] * kv[1][1] - sum(kv[1])
        )
        if n * p - (n + p) > 4 or len(cons) > 120:
            break
        ps, ns, rest = [], [], {}
        for c, k in cons.items():
            d = dict(c)
            v = d.get(a)
            if v is None:
                rest[c] = k
            elif v > 0:
                ps.append((d, k, v))
            else:
                ns.append((d, k, -v))
        for d1, k1, v1 in ps:
            for d2, k2, v2 in ns:
                g = gcd(v1, v2)
                m1, m2 = v2 // g, v1 // g
                d = {}
                for b, v in d1.items():
                    if b != a:
                        d[b] = v * m1
                for b, v in d2.items():
                    if b != a:
                        w = d.get(b, 0) + v * m2
                        if w:
                            d[b] = w
                        else:
                            d.pop(b, None)
                k = k1 * m1 + k2 * m2
                if not d:
                    if k < 0:
                        return True
                    continue
                g = 0
                for v in d.values():
                    g = gcd(g, v)
                if g > 1:
                    d = {b: v // g for b, v in d.items()}
                    k = k // g
                key = frozenset(d.items())
                if key not in rest or rest[key] > k:
                    rest[key] = k
        cons = rest
        if not cons:
            return False
    return _simplex([(dict(c), k) for c, k in cons.items()])


def _simplex(cons):
    atoms = {}
    for c, _ in cons:
        for a in c:
            atoms.setdefault(a, len(atoms))
    m = len(atoms) + 1
    n = len(cons)
    rows = [[Fraction(0)] * (n + 1) for _ in range(m)]
    for j, (c, k) in enumerate(cons):
        for a, v in c.items():
            rows[atoms[a]][j] = Fraction(v)
        rows[m - 1][j] = Fraction(-k)
    rows[m - 1][n] = Fraction(1)
    # phase 1 with implicit artificials
    basis = [-1 - i for i in range(m)]
    cost = [Fraction(0)] * (n + 1)
    for r in rows:
        for j in range(n + 1):
            cost[j] += r[j]
    steps = 0
    while cost[n] > 0:
        steps += 1
        if steps > 400:
            return False
        ent = -1
        for j in range(n):
            if cost[j] > 0:
                ent = j
                break
        if ent < 0:
            return False
        best = None
        lv = -1
        for i in range(m):
            a = rows[i][ent]
            if a > 0:
                q = rows[i][n] / a
                if best is None or q < best or (
                    q == best and basis[i] < basis[lv]
                ):
                    best = q
                    lv = i
        if lv < 0:
            return False
        piv = rows[lv][ent]
        if piv != 1:
            rows[lv] = [x / piv for x in rows[lv]]
        pr = rows[lv]
        for i in range(m):
            if i != lv:
                f = rows[i][ent]
                if f:
                    ri = rows[i]
                    rows[i] = [
                        x - f * y if y else x for x, y in zip(ri, pr)
                    ]
        f = cost[ent]
        cost = [x - f * y if y else x for x, y in zip(cost, pr)]
        basis[lv] = ent
    return True
