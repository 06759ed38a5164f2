"""Abstract states: facts (relational domain) plus environment and heap."""
from .terms import (
    A,
    L,
    Lin,
    ONE,
    ZERO,
    infeasible,
    monomial,
    mul,
    nested_atoms,
    subst_lin,
    subst_term,
)

# ------------------------------------------------------------- formulas
T = ('T',)
F = ('F',)

DOMAINS = {
    'Orientation': ('CLOCKWISE', 'COLLINEAR', 'COUNTERCLOCKWISE'),
}


def f_lin(l):
    if l.const is not None:
        return T if l.const >= 0 else F
    return ('lin', l)


def f_eq(a, b):
    d = a - b
    if d.const is not None:
        return T if d.const == 0 else F
    return f_and([('lin', d), ('lin', -d)])


def f_and(fs):
    out = []
    for f in fs:
        if f == F:
            return F
        if f == T:
            continue
        for g in f[1] if f[0] == 'and' else (f,):
            if g not in out:
                out.append(g)
    if not out:
        return T
    if len(out) == 1:
        return out[0]
    return ('and', tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f == T:
            return T
        if f == F:
            continue
        for g in f[1] if f[0] == 'or' else (f,):
            if g not in out:
                out.append(g)
    if not out:
        return F
    if len(out) == 1:
        return out[0]
    return ('or', tuple(out))


def f_not(f):
    h = f[0]
    if h == 'T':
        return F
    if h == 'F':
        return T
    if h == 'lin':
        return f_lin(-f[1] - 1)
    if h == 'lit':
        return ('nlit', f[1])
    if h == 'nlit':
        return ('lit', f[1])
    if h == 'in':
        dom = DOMAINS.get(f[1][0])
        if dom is None:
            return ('notin', f[1], f[2])
        rest = frozenset(dom) - f[2]
        return ('in', f[1], rest) if rest else F
    if h == 'notin':
        return ('in', f[1], f[2])
    if h == 'and':
        return f_or([f_not(g) for g in f[1]])
    if h == 'or':
        return f_and([f_not(g) for g in f[1]])
    if h == 'all':
        return ('ex', f[1], f[2], f_not(f[3]))
    if h == 'ex':
        return ('all', f[1], f[2], f_not(f[3]))
    raise AssertionError(f)


def f_subst(f, m):
    h = f[0]
    if h in ('T', 'F'):
        return f
    if h == 'lin':
        return f_lin(subst_lin(f[1], m))
    if h in ('and', 'or'):
        return (f_and if h == 'and' else f_or)([f_subst(g, m) for g in f[1]])
    if h in ('lit', 'nlit'):
        return (h, subst_term(f[1], m))
    if h in ('in', 'notin'):
        return (h, subst_term(f[1], m), f[2])
    if h in ('all', 'ex'):
        return (h, subst_term(f[1], m), f[2], f_subst(f[3], m))
    raise AssertionError(f)


def f_atoms(f, acc):
    h = f[0]
    if h == 'lin':
        acc.update(f[1].c)
    elif h in ('and', 'or'):
        for g in f[1]:
            f_atoms(g, acc)
    elif h in ('all', 'ex'):
        f_atoms(f[3], acc)


def f_interesting(f):
    """Formulas worth a trace partition (not mere opaque literals)."""
    h = f[0]
    if h in ('lin', 'in', 'notin', 'all', 'ex'):
        return True
    if h in ('and', 'or'):
        return any(f_interesting(g) for g in f[1])
    if h in ('lit', 'nlit'):
        return f[1][0] != 'opq'
    return False


# ------------------------------------------------------------ atom axioms
UNIQUE = {}  # list sid -> True when its elements are pairwise distinct
SORTED = {}  # list sid -> True when strictly increasing by index
EXTRA_AXIOMS = {}  # atom -> [Lin >= 0]


def axioms(a, cons, disj):
    h = a[0]
    if h in ('max', 'min'):
        s = A(a)
        alts = []
        for x in a[1]:
            d = s - x if h == 'max' else x - s
            cons.append(d)
            alts.append(('lin', -d))
        disj.append(('or', tuple(alts)))
    elif h == '//':
        d = a[2].const
        q = A(a)
        if d is not None and d > 0:
            cons.append(a[1] - q.scale(d))
            cons.append(q.scale(d) + (d - 1) - a[1])
        elif d is None and a in POSDIV:
            prod = mul(q, a[2])
            cons.append(a[1] - prod)
            cons.append(prod + a[2] - 1 - a[1])
    elif h == '%':
        r = A(a)
        if a in POSDIV or (a[2].const or 0) > 0:
            cons.append(r)
            cons.append(a[2] - 1 - r)
    elif h in ('nn', 'len'):
        cons.append(A(a))
    elif h == 'bool':
        cons.append(A(a))
        cons.append(ONE - A(a))
    x = EXTRA_AXIOMS.get(a)
    if x:
        cons.extend(x)


POSDIV = set()
IXSYMS = set()


def is_ix(a):
    return isinstance(a, tuple) and len(a) == 2 and a[0] == 'ix'


def generic_arg(x):
    """The generic index symbol if the argument is exactly one."""
    if isinstance(x, Lin):
        s = x.single()
        if s is not None and s[0] == 'ix':
            return s
    return None


def match(g, a):
    """Match generic indexed atom g against atom a: mapping ix -> Lin."""
    if g[0] != a[0] or len(g) != len(a) or g[1] != a[1]:
        return None
    m = {}
    for x, y in zip(g[2:], a[2:]):
        if x == y:
            continue
        i = generic_arg(x)
        if i is None or not isinstance(y, Lin):
            return None
        if i in m and m[i] != y:
            return None
        m[i] = y
    return m


_split_cache = {}


def idx_atoms(atoms):
    out = set()
    for a in atoms:
        for b in nested_atoms(a):
            if b and b[0] in ('d', 'e', 'nn') and len(b) > 2:
                out.add(b)
    return out


# Non-empty while calls on summarised instances run: no relational facts are
# gathered (or used) there, only classes, provenance, references and effects.
CHEAP = []


class State:
    __slots__ = (
        'frames',
        'heap',
        '_lins',
        'fx',
        'lits',
        'doms',
        'disj',
        'exs',
        'ghost',
        'ictx',
        'memo',
        'nn',
    )

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.lins = {}
        self.lits = {}
        self.doms = {}
        self.disj = ()
        self.exs = ()
        self.ghost = {}
        self.ictx = ()
        self.memo = {}
        self.nn = {}

    @property
    def lins(self):
        return self._lins

    @lins.setter
    def lins(self, v):
        self._lins = v
        self.fx = None

    def copy(self):
        s = State.__new__(State)
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s._lins = dict(self._lins)
        s.fx = self.fx
        s.lits = dict(self.lits)
        s.doms = dict(self.doms)
        s.disj = self.disj
        s.exs = self.exs
        s.ghost = dict(self.ghost)
        s.ictx = self.ictx
        s.memo = self.memo
        s.nn = self.nn
        return s

    # ---------------------------------------------------------- assuming
    def assume(self, f):
        """Refine in place; False when the state becomes contradictory."""
        h = f[0]
        if h == 'T':
            return True
        if h == 'F':
            return False
        if CHEAP:
            return True
        if h == 'and':
            for g in f[1]:
                if not self.assume(g):
                    return False
            return True
        if h == 'lin':
            l = f[1]
            if l in self.lins:
                return True
            if unsat(self, [f]):
                return False
            self.lins[l] = None
            return self.recheck()
        if h in ('lit', 'nlit'):
            v = h == 'lit'
            old = self.lit(f[1])
            if old is not None:
                return old is v
            self.lits[f[1]] = v
            return True
        if h in ('in', 'notin'):
            k = f[1]
            dom = DOMAINS.get(k[0])
            old = self.dom(k)
            if h == 'in':
                new = f[2] if old is None else old & f[2]
            elif dom is not None or old is not None:
                new = (old if old is not None else frozenset(dom)) - f[2]
            else:
                for m in f[2]:
                    self.lits[('isnot', k, m)] = True
                return True
            if not new:
                return False
            self.doms[k] = new
            return True
        if h == 'or':
            live = []
            for g in f[1]:
                t = truth(self, g)
                if t is True:
                    return True
                if t is None:
                    live.append(g)
            if not live:
                return False
            if len(live) == 1:
                return self.assume(live[0])
            g = f_or(live)
            if g not in self.disj:
                self.disj = self.disj + (g,)
            return True
        if h == 'all':
            key = ('exq', f[1])
            return self.assume(f[3]) if f[3] != F else True
        if h == 'ex':
            if f not in self.exs:
                self.exs = self.exs + (f,)
            return True
        raise AssertionError(f)

    def recheck(self):
        return True

    def lit(self, key):
        v = self.lits.get(key)
        if v is not None:
            return v
        return None

    def dom(self, key):
        d = self.doms.get(key)
        if d is not None:
            return d
        # universal facts on generic indices
        m = None
        for k, v in self.doms.items():
            if k[0] == key[0] and k != key:
                m = term_match(k, key)
                if m is not None:
                    return v
        return None


def term_match(g, a, m=None):
    """Match a generic key (with ix symbols inside Lins) against a key."""
    if m is None:
        m = {}
    if g == a:
        return m
    if isinstance(g, Lin) and isinstance(a, Lin):
        i = generic_arg(g)
        if i is not None:
            if i in m:
                return m if m[i] == a else None
            m[i] = a
            return m
        # affine in one generic symbol: i + k against u: i := u - k
        ixs = [x for x in g.c if x[0] == 'ix' and g.c[x] == 1]
        if len(ixs) == 1:
            i = ixs[0]
            if i in m:
                return m if subst_lin(g, m) == a else None
            m[i] = a - (g - A(i))
            return m
        gs, as_ = g.single(), a.single()
        if gs is not None and as_ is not None:
            return term_match(gs, as_, m)
        return None
    if isinstance(g, tuple) and isinstance(a, tuple) and len(g) == len(a):
        for x, y in zip(g, a):
            if x == y:
                continue
            m = term_match(x, y, m)
            if m is None:
                return None
        return m
    return None


def truth(st, f):
    """True/False when the state decides the formula, else None."""
    h = f[0]
    if h == 'T':
        return True
    if h == 'F':
        return False
    if CHEAP:
        return None
    if h == 'lin':
        if f[1] in st.lins:
            return True
        if unsat(st, [f]):
            return False
        if unsat(st, [f_not(f)]):
            return True
        return None
    if h == 'and':
        r = True
        for g in f[1]:
            t = truth(st, g)
            if t is False:
                return False
            if t is None:
                r = None
        if r is None and unsat(st, [f]):
            return False
        return r
    if h == 'or':
        r = False
        for g in f[1]:
            t = truth(st, g)
            if t is True:
                return True
            if t is None:
                r = None
        if r is None and unsat(st, [f_not(f)]):
            return True
        return r
    if h == 'lit':
        return st.lit(f[1])
    if h == 'nlit':
        v = st.lit(f[1])
        return None if v is None else not v
    if h in ('in', 'notin'):
        d = st.dom(f[1])
        if d is None:
            return None
        if d <= f[2]:
            return h == 'in'
        if not (d & f[2]):
            return h != 'in'
        return None
    if h == 'all':
        if truth(st, f[3]) is True:
            return True
        return None
    if h == 'ex':
        return True if f in st.exs else None
    raise AssertionError(f)


def entails(st, f):
    h = f[0]
    if CHEAP:
        return h == 'T'
    if h == 'and':
        return all(entails(st, g) for g in f[1])
    if h == 'T':
        return True
    if h == 'F':
        return unsat(st, [])
    if h in ('lit', 'nlit', 'in', 'notin'):
        return truth(st, f) is True
    if h == 'lin' and f[1] in st.lins:
        return True
    return unsat(st, [f_not(f)])


def ge(st, a, b):
    return entails(st, f_lin(a - b))


def eq(st, a, b):
    d = a - b
    if d.const is not None:
        return d.const == 0
    return ge(st, a, b) and ge(st, b, a)


# ------------------------------------------------------------- emptiness
_unsat_cache = {}
STATS = {'queries': 0, 'lp': 0}


def unsat(st, fs, depth=7):
    """Is state /\\ fs empty?"""
    if CHEAP:
        return False
    STATS['queries'] += 1
    cons, disj, lits, doms = [], [], {}, {}
    for f in fs:
        if not _push(st, f, cons, disj, lits, doms):
            return True
    rel = set()
    for l in cons:
        rel.update(l.c)
    for f in disj:
        f_atoms(f, rel)
    if not rel and not disj:
        return False
    sc, sd = _cone(st, rel)
    return _search(st, cons + sc, disj, sd, lits, doms, depth)


def _push(st, f, cons, disj, lits, doms):
    """Add a formula; False on immediate contradiction."""
    h = f[0]
    if h == 'T':
        return True
    if h == 'F':
        return False
    if h == 'lin':
        cons.append(f[1])
        return True
    if h == 'and':
        return all(_push(st, g, cons, disj, lits, doms) for g in f[1])
    if h == 'or':
        disj.append(f)
        return True
    if h in ('lit', 'nlit'):
        v = h == 'lit'
        o = lits.get(f[1])
        if o is None:
            o = st.lit(f[1])
        if o is not None and o is not v:
            return False
        lits[f[1]] = v
        return True
    if h in ('in', 'notin'):
        d = doms.get(f[1])
        if d is None:
            d = st.dom(f[1])
        if d is None:
            dom = DOMAINS.get(f[1][0])
            if dom is None:
                return True
            d = frozenset(dom)
        d = d & f[2] if h == 'in' else d - f[2]
        if not d:
            return False
        doms[f[1]] = d
        return True
    if h == 'all':
        return _push(st, f[3], cons, disj, lits, doms)
    if h == 'ex':
        return True
    raise AssertionError(f)


_fa_cache = {}


def fatoms(f):
    """Atoms of a formula (formulas are shared, so keyed by identity)."""
    r = _fa_cache.get(id(f))
    if r is None or r[0] is not f:
        acc = set()
        f_atoms(f, acc)
        if len(_fa_cache) > 200000:
            _fa_cache.clear()
        r = _fa_cache[id(f)] = (f, acc)
    return r[1]


def fact_index(st):
    """(facts, atom -> facts, atom -> extremes over it); the facts of a
    state only grow, so an index of a prefix is shared between copies."""
    lins = st._lins
    fx = st.fx
    if fx is None or len(lins) - len(fx[0]) > 12:
        facts = list(lins)
        idx, ext = {}, {}
        for i, l in enumerate(facts):
            for a in l.c:
                e = idx.get(a)
                if e is None:
                    idx[a] = [i]
                else:
                    e.append(i)
                if a[0] in ('max', 'min'):
                    for x in a[1]:
                        for b in x.c:
                            if b[0] == 'p':
                                ext.setdefault(b, set()).add(a)
        fx = st.fx = (facts, idx, ext)
    return fx


def _cone(st, rel):
    """Facts of the state (with instances of universal facts and atom
    axioms) connected to the relevant atoms."""
    cons, disj = [], []
    done = set()
    used = set()
    base, fidx, ext = fact_index(st)
    nbase = len(base)
    tail = []
    if len(st._lins) > nbase:
        tail = list(st._lins)[nbase:]
    dj = [(f, fatoms(f)) for f in st.disj]
    ext2 = ext
    for l in tail:
        for a in l.c:
            if a[0] in ('max', 'min'):
                for x in a[1]:
                    for b in x.c:
                        if b[0] == 'p':
                            if ext2 is ext:
                                ext2 = {k: set(v) for k, v in ext.items()}
                            ext2.setdefault(b, set()).add(a)
    ext = ext2
    frontier = set(rel)
    rounds = 0
    gen_index = None
    inst_done = set()
    while frontier and rounds < 6:
        rounds += 1
        new = set()
        done |= frontier
        for a in frontier:
            if a in ext and a[0] == 'p':
                new |= ext[a]
            c0, d0 = [], []
            axioms(a, c0, d0)
            for l in c0:
                cons.append(l)
                new.update(l.c)
            for f in d0:
                disj.append(f)
                f_atoms(f, new)
            if a[0] == '*':
                for b in a[1]:
                    new.add(b)
        hits = set()
        for a in frontier:
            e = fidx.get(a)
            if e:
                hits.update(e)
        hits -= used
        used |= hits
        for i in sorted(hits):
            l = base[i]
            cons.append(l)
            new.update(l.c)
        for i, l in enumerate(tail, nbase):
            if i in used:
                continue
            c = l.c
            for a in c:
                if a in frontier:
                    used.add(i)
                    cons.append(l)
                    new.update(c)
                    break
        for i, (f, acc) in enumerate(dj):
            if ('d', i) in used:
                continue
            if not frontier.isdisjoint(acc):
                used.add(('d', i))
                disj.append(f)
                new.update(acc)
        # instances of universal facts
        for a in frontier:
            if a[0] not in ('d', 'e', 'nn') or len(a) <= 2:
                continue
            if gen_index is None:
                gen_index = {}
                for l in st._lins:
                    c = l.c
                    gs = _split_cache.get(l)
                    if gs is None:
                        gs = _split_cache[l] = [
                            g
                            for g in idx_atoms(c)
                            if any(generic_arg(x) for x in g[2:])
                        ]
                    for g in gs:
                        gen_index.setdefault(g[:2], []).append(
                            (g, l, None)
                        )
                for f, acc in dj:
                    for g in idx_atoms(acc):
                        if any(generic_arg(x) for x in g[2:]):
                            gen_index.setdefault(g[:2], []).append(
                                (g, None, f)
                            )
            for g, l, f in gen_index.get(a[:2], ()):
                m = match(g, a)
                if not m:
                    continue
                if l is not None:
                    x = subst_lin(l, m)
                    if x in inst_done:
                        continue
                    inst_done.add(x)
                    cons.append(x)
                    new.update(x.c)
                else:
                    x = f_subst(f, m)
                    if x in inst_done:
                        continue
                    inst_done.add(x)
                    disj.append(x)
                    f_atoms(x, new)
        frontier = {a for a in new if a not in done}
    allat = done | frontier
    _order_axioms(allat, cons, disj)
    _products(st, allat, cons)
    return cons, disj


def _order_axioms(atoms, cons, disj):
    by = {}
    for a in atoms:
        if a[0] == 'e' and len(a) == 3:
            by.setdefault(a[1], []).append(a)
    for sid, es in by.items():
        if len(es) < 2 or len(es) > 6:
            continue
        srt = SORTED.get(sid)
        unq = UNIQUE.get(sid)
        if not (srt or unq):
            continue
        for i, x in enumerate(es):
            for y in es[i + 1:]:
                d = (x[2] - y[2]).const
                if d is None or d == 0:
                    continue
                lx, ly = A(x), A(y)
                if srt:
                    cons.append(lx - ly - 1 if d > 0 else ly - lx - 1)
                else:
                    disj.append(
                        ('or', (('lin', lx - ly - 1), ('lin', ly - lx - 1)))
                    )


def _products(st, atoms, cons):
    mons = [a for a in atoms if a[0] == '*']
    if not mons:
        return
    partners = {}
    for m in mons:
        fs = m[1]
        for i, f in enumerate(fs):
            rest = fs[:i] + fs[i + 1:]
            partners.setdefault(f, set()).add(
                rest[0] if len(rest) == 1 else ('*', rest)
            )
    nn = {}
    base = list(cons)
    for f, ps in partners.items():
        for l in base:
            if not l.c or any(a not in ps for a in l.c):
                continue
            if f not in nn:
                nn[f] = infeasible_cheap(st, f)
            if not nn[f]:
                break
            cons.append(mul(l, A(f)))
    for m in mons:
        for f in m[1]:
            if f not in nn:
                nn[f] = infeasible_cheap(st, f)
            if not nn[f]:
                break
        else:
            cons.append(A(m))


_nn_guard = set()


def infeasible_cheap(st, f):
    """f >= 0 provable (without products)."""
    r = st.nn.get(f)
    if r is not None:
        return r
    if _nn_guard:
        return A(f) in st.lins
    _nn_guard.add(f)
    try:
        r = unsat(st, [('lin', -A(f) - 1)], depth=2)
    finally:
        _nn_guard.discard(f)
    st.nn = dict(st.nn)
    st.nn[f] = r
    return r


def _search(st, cons, gdisj, sdisj, lits, doms, depth):
    STATS['lp'] += 1
    if infeasible(cons):
        return True
    pend = list(gdisj) + list(sdisj)
    if len(pend) > 1:
        known = set(cons)
        for f in pend:
            if all(
                g[0] == 'lin' and (-g[1] - 1) in known for g in f[1]
            ):
                return True
    while pend:
        if depth <= 0:
            return False
        pend.sort(key=lambda f: len(f[1]))
        f = pend.pop(0)
        live = []
        sat = False
        for g in f[1]:
            if g[0] == 'lin':
                if g[1].const is not None:
                    if g[1].const >= 0:
                        sat = True
                        break
                    continue
                c2 = [g[1]]
                if infeasible(cons + c2):
                    continue
                live.append((c2, [], lits, doms))
                continue
            c2, d2, l2, m2 = [], [], dict(lits), dict(doms)
            if not _push(st, g, c2, d2, l2, m2):
                continue
            if c2 and infeasible(cons + c2):
                continue
            live.append((c2, d2, l2, m2))
        if sat:
            continue
        if not live:
            return True
        if len(live) == 1:
            c2, d2, lits, doms = live[0]
            cons = cons + c2
            pend.extend(d2)
            continue
        for c2, d2, l2, m2 in live:
            if not _search(
                st, cons + c2, d2 + pend, [], l2, m2, depth - 1
            ):
                return False
        return True
    return False
