"""Abstract values."""
from .terms import A, L, Lin, ONE, ZERO, subst_lin, subst_term

_counter = [0]


def fresh(*info):
    _counter[0] += 1
    return ('d', (_counter[0],) + info)


def fresh_id(tag):
    _counter[0] += 1
    return (tag, _counter[0])


_nids = {}


def nid(node):
    """A number for a syntax node that is the same in every run."""
    r = _nids.get(id(node))
    if r is None or r[0] is not node:
        r = _nids[id(node)] = (node, len(_nids) + 1)
    return r[1]


class V:
    __slots__ = ('_h', '_r', '_a')
    _fields = ()

    def __init__(self, *args):
        self._h = None
        self._r = None
        self._a = None
        for n, a in zip(self._fields, args):
            setattr(self, n, a)
        for n in self._fields[len(args):]:
            setattr(self, n, self._defaults[n])

    _defaults = {}

    def key(self):
        return tuple(getattr(self, n) for n in self._eqfields)

    @property
    def _eqfields(self):
        return self._fields

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and self.key() == o.key())

    def __hash__(self):
        if self._h is None:
            self._h = hash((type(self).__name__, self.key()))
        return self._h

    def __repr__(self):
        return '%s(%s)' % (
            type(self).__name__,
            ', '.join(repr(getattr(self, n)) for n in self._fields),
        )

    def replace(self, **kw):
        return type(self)(
            *[kw.get(n, getattr(self, n)) for n in self._fields]
        )


class Const(V):
    """None, bool, str, float, bytes, Ellipsis."""

    __slots__ = _fields = ('v',)

    def key(self):
        return (type(self.v).__name__, self.v)


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


class Int(V):
    __slots__ = _fields = ('l',)


class Bool(V):
    """Undetermined boolean with its defining formula."""

    __slots__ = _fields = ('f',)


class Prov(V):
    """Provenance of a coordinate.

    exact: set of leaf tags when the value is exactly one of the drawn
    values, else None; lo / hi: leaf tags of which some drawn value is known
    to bound it from below / above.
    """

    __slots__ = _fields = ('exact', 'lo', 'hi')


def exact_prov(tag):
    s = frozenset([tag])
    return Prov(s, s, s)


ARITH = Prov(None, frozenset(), frozenset())


def prov_join(a, b):
    if a == b:
        return a
    return Prov(
        None
        if a.exact is None or b.exact is None
        else a.exact | b.exact,
        a.lo & b.lo,
        a.hi & b.hi,
    )


class Sc(V):
    """Coordinate scalar: t is an identity Lin over order terms, views are
    further ('e', list, index) identities of the same value."""

    __slots__ = _fields = ('t', 'prov', 'views')
    _defaults = {'views': ()}


class Geo(V):
    """Instance of one of the context's geometry classes."""

    __slots__ = _fields = ('kind', 't', 'f', 'tags', 'ctx', 'site')
    _eqfields = ('kind', 't', 'f', 'tags', 'ctx')
    _defaults = {'tags': frozenset(), 'ctx': None, 'site': None}

    def get(self, n):
        for k, v in self.f:
            if k == n:
                return v
        return None

    def key(self):
        return (self.kind, self.t, self.f, self.tags, self.ctx)


class Item(V):
    __slots__ = _fields = ('v',)


class Span(V):
    """A run of elements: element number i (0 <= i < n) is tmpl[ix := i]."""

    __slots__ = _fields = ('ix', 'n', 'tmpl')


class Seq(V):
    """Finite sequence (value semantics)."""

    __slots__ = _fields = (
        'kind',
        'parts',
        'perm',
        'tags',
        'sid',
        'subs',
        'site',
    )
    _defaults = {
        'perm': False,
        'tags': frozenset(),
        'sid': None,
        'subs': frozenset(),
        'site': None,
    }

    def key(self):
        return (
            self.kind,
            self.parts,
            self.perm,
            self.tags,
            self.sid,
            self.subs,
        )

    def length(self):
        r = ZERO
        for p in self.parts:
            r = r + (ONE if isinstance(p, Item) else p.n)
        return r

    def items(self):
        """Exact item values when fully known."""
        out = []
        for p in self.parts:
            if not isinstance(p, Item):
                return None
            out.append(p.v)
        return out


class Ref(V):
    """Reference to heap objects (one for strong, several for may-alias)."""

    __slots__ = _fields = ('ids',)


class Fn(V):
    """Repo function: node, defining frame id, module name."""

    __slots__ = _fields = ('node', 'fid', 'mod', 'cls', 'extra')
    _defaults = {'cls': None, 'extra': None}

    def key(self):
        return (nid(self.node), self.fid, self.mod, self.extra)

    def __repr__(self):
        return 'Fn(%s)' % getattr(self.node, 'name', '<lambda>')


class Bound(V):
    __slots__ = _fields = ('fn', 'self')


class Meth(V):
    """Method of a non-repo object."""

    __slots__ = _fields = ('obj', 'name')


class Lib(V):
    __slots__ = _fields = ('path',)


class LibObj(V):
    """Instance produced by a library (opaque but typed)."""

    __slots__ = _fields = ('kind', 't', 'data')
    _defaults = {'data': ()}


class Mod(V):
    __slots__ = _fields = ('name',)


class Cls(V):
    __slots__ = _fields = ('node', 'mod')

    def key(self):
        return (nid(self.node), self.mod)

    def __repr__(self):
        return 'Cls(%s)' % self.node.name


class Partial(V):
    __slots__ = _fields = ('fn', 'args', 'kw')


class Composed(V):
    """Helper callable made by a library: itemgetter, composite, ..."""

    __slots__ = _fields = ('op', 'args')


class Ctx(V):
    __slots__ = _fields = ('name',)


class CtxAttr(V):
    __slots__ = _fields = ('ctx', 'name')


class Strat(V):
    """Strategy term."""

    __slots__ = _fields = ('op', 'args', 'kw', 'site')
    _defaults = {'kw': (), 'site': None}

    def key(self):
        return (self.op, self.args, self.kw)


class Enum(V):
    __slots__ = _fields = ('cls', 'name')


class EnumVar(V):
    """Unknown member of an enumeration, identified by key; perm is the
    bijection applied to the stored domain (orientation sign)."""

    __slots__ = _fields = ('cls', 'k', 'sign')
    _defaults = {'sign': 1}


class Un(V):
    """One of several values."""

    __slots__ = _fields = ('vs',)


class Opq(V):
    """Unknown value."""

    __slots__ = _fields = ('t', 'why')
    _defaults = {'why': None}

    def key(self):
        return (self.t,)


class Bot(V):
    """No value (element of an empty sequence)."""

    __slots__ = _fields = ()


BOT = Bot()


def I(n):
    return Int(L(n))


# ------------------------------------------------------------ substitution
def vsubst(v, m, memo=None):
    if memo is None:
        memo = {}
    r = memo.get(v)
    if r is None:
        r = memo[v] = _vsubst(v, m, memo)
    return r


def _has_v(x):
    return any(
        isinstance(e, V) or (isinstance(e, tuple) and _has_v(e)) for e in x
    )


def _tsub(x, m, memo):
    if isinstance(x, V):
        return vsubst(x, m, memo)
    if isinstance(x, Lin):
        return subst_lin(x, m)
    if isinstance(x, tuple):
        if not _has_v(x):
            return subst_term(x, m)
        y = tuple(_tsub(e, m, memo) for e in x)
        return x if y == x else y
    if isinstance(x, frozenset):
        return frozenset(_tsub(e, m, memo) for e in x)
    return x


def _vsubst(v, m, memo):
    if isinstance(
        v, (Const, Lib, Mod, Cls, Ctx, CtxAttr, Enum, Bot, Prov, Ref)
    ):
        return v
    if isinstance(v, Int):
        l = subst_lin(v.l, m)
        return v if l is v.l else Int(l)
    if isinstance(v, Fn):
        if v.extra is None:
            return v
        return v.replace(extra=_tsub(v.extra, m, memo))
    out = []
    changed = False
    for n in v._fields:
        x = getattr(v, n)
        y = _tsub(x, m, memo) if n != 'site' else x
        if y is not x and y != x:
            changed = True
        else:
            y = x
        out.append(y)
    return type(v)(*out) if changed else v
