"""Heap objects: strongly updated containers, summarised instances."""
from .values import BOT, Bot, Seq, Un, V, vsubst


class HSeq:
    """list / set / deque / keyed set; content is a Seq value."""

    __slots__ = ('kind', 'seq', 'phase', 'summary', 'site')

    def __init__(self, kind, seq, phase, summary=False, site=None):
        self.kind, self.seq, self.phase = kind, seq, phase
        self.summary, self.site = summary, site

    def values(self):
        return (self.seq,)

    def key(self):
        return ('seq', self.kind, self.seq, self.phase, self.summary)

    def with_seq(self, seq):
        return HSeq(self.kind, seq, self.phase, self.summary, self.site)


class HIter:
    __slots__ = ('seq', 'pos', 'phase', 'summary', 'site')

    def __init__(self, seq, pos, phase, summary=False, site=None):
        self.seq, self.pos, self.phase = seq, pos, phase
        self.summary, self.site = summary, site

    def values(self):
        return (self.seq,)

    def key(self):
        return ('iter', self.seq, self.pos, self.phase, self.summary)


class HDict:
    """Exact entries (tuple of pairs) and/or a summary (key, value)."""

    __slots__ = ('items', 'sk', 'sv', 'phase', 'summary', 'site')

    def __init__(self, items, sk, sv, phase, summary=False, site=None):
        self.items, self.sk, self.sv = items, sk, sv
        self.phase, self.summary, self.site = phase, summary, site

    def values(self):
        out = [self.sk, self.sv]
        for k, v in self.items:
            out += [k, v]
        return tuple(out)

    def key(self):
        return ('dict', self.items, self.sk, self.sv, self.phase)


class HObj:
    """Instance of a repository class (summary of an allocation site)."""

    __slots__ = ('cls', 'fields', 'phase', 'summary', 'site')

    def __init__(self, cls, fields, phase, summary=True, site=None):
        self.cls, self.fields = cls, fields
        self.phase, self.summary, self.site = phase, summary, site

    def values(self):
        return tuple(v for _, v in self.fields)

    def key(self):
        return ('obj', self.cls, self.fields)

    def get(self, n):
        for k, v in self.fields:
            if k == n:
                return v
        return None

    def with_field(self, n, v):
        f = tuple((k, v if k == n else w) for k, w in self.fields)
        if not any(k == n for k, _ in self.fields):
            f = f + ((n, v),)
        return HObj(self.cls, f, self.phase, self.summary, self.site)


def join_obj(j, a, b):
    if type(a) is not type(b):
        j.changed = True
        return a
    ph = min(a.phase, b.phase)
    sm = a.summary or b.summary
    if isinstance(a, HSeq):
        return HSeq(a.kind, j.join(a.seq, b.seq), ph, sm, a.site)
    if isinstance(a, HIter):
        return HIter(
            j.join(a.seq, b.seq), j.jlin(a.pos, b.pos), ph, sm, a.site
        )
    if isinstance(a, HDict):
        if a.items == b.items:
            for k, v in a.items:
                j.touch(k)
                j.touch(v)
            return HDict(
                a.items, j.join(a.sk, b.sk), j.join(a.sv, b.sv), ph, sm, a.site
            )
        j.changed = True
        sk, sv = j.join(a.sk, b.sk), j.join(a.sv, b.sv)
        for k, v in a.items:
            sk, sv = j.join(sk, k), j.join(sv, v)
        for k, v in b.items:
            sk, sv = j.join(sk, k), j.join(sv, v)
        return HDict((), sk, sv, ph, sm, a.site)
    if isinstance(a, HObj):
        names = [k for k, _ in a.fields]
        names += [k for k, _ in b.fields if k not in names]
        out = []
        for n in names:
            x, y = a.get(n), b.get(n)
            j.path.append(n)
            if x is None:
                j.changed = True
                j.touch(y, 1)
                out.append((n, y))
            elif y is None:
                j.touch(x, 0)
                out.append((n, x))
            else:
                out.append((n, j.join(x, y)))
            j.path.pop()
        return HObj(a.cls, tuple(out), ph, sm, a.site)
    raise AssertionError(a)


def subst_obj(o, m, memo):
    from .terms import subst_lin

    if isinstance(o, HSeq):
        s = vsubst(o.seq, m, memo)
        return o if s is o.seq else o.with_seq(s)
    if isinstance(o, HIter):
        s, p = vsubst(o.seq, m, memo), subst_lin(o.pos, m)
        if s is o.seq and p is o.pos:
            return o
        return HIter(s, p, o.phase, o.summary, o.site)
    if isinstance(o, HDict):
        items = tuple(
            (vsubst(k, m, memo), vsubst(v, m, memo)) for k, v in o.items
        )
        sk, sv = vsubst(o.sk, m, memo), vsubst(o.sv, m, memo)
        if items == o.items and sk is o.sk and sv is o.sv:
            return o
        return HDict(items, sk, sv, o.phase, o.summary, o.site)
    f = tuple((k, vsubst(v, m, memo)) for k, v in o.fields)
    if all(x[1] is y[1] for x, y in zip(f, o.fields)):
        return o
    return HObj(o.cls, f, o.phase, o.summary, o.site)


def ghost_join(k, x, y):
    if isinstance(x, frozenset) and isinstance(y, frozenset):
        if k == 'cmp':
            return x & y
        return x | y
    if x == y:
        return x
    if isinstance(x, bool) and isinstance(y, bool):
        return x and y
    return None


def ghost_subst(k, v, m, memo):
    if isinstance(v, V):
        return vsubst(v, m, memo)
    if k == 'cmp' and v:
        return frozenset(
            (vsubst(x, m, memo), vsubst(y, m, memo)) for x, y in v
        )
    return v
