"""Sequences and containers."""
from . import heap as H
from .join import Joiner, rename, seq_elems
from .ops import int_of
from .state import (
    CHEAP,
    F,
    SORTED,
    T,
    UNIQUE,
    entails,
    eq,
    f_and,
    f_eq,
    f_lin,
    f_or,
    ge,
    truth,
)
from .terms import A, L, Lin, ONE, ZERO, mk_extreme, subst_lin
from .values import *
from .values import V
from .weak import freshen, open_span, weaken, wjoin


def new_ix(tag='s'):
    return ('ix', fresh_id(tag))


def alloc(self, st, kind, q, node):
    hid = fresh_id('h')
    summary = False
    st.heap[hid] = H.HSeq(
        kind,
        q.replace(kind=kind, site=q.site or self.site(node)),
        self.phase,
        summary,
        self.site(node),
    )
    return Ref(frozenset([hid]))


def alloc_list(self, st, q, node):
    return self.alloc(st, 'list', q, node)


def rewrap(self, like, q, st, node):
    """Value of the same category as `like` holding q."""
    if isinstance(like, Ref):
        o = st.heap.get(next(iter(like.ids)))
        kind = o.kind if isinstance(o, H.HSeq) else 'list'
        return self.alloc(st, kind, q, node)
    return q


def mk_span(self, kind, n, tmpl):
    if n.const == 0 or isinstance(tmpl, Bot):
        return self.mk_tuple((), kind)
    return Seq(
        kind,
        (Span(new_ix(), n, tmpl),),
        False,
        frozenset(),
        fresh_id('q'),
        frozenset(),
        None,
    )


def seq_len(self, q):
    return q.length()


def norm_parts(st, q):
    """Drop provably empty spans, unroll short constant ones."""
    parts = []
    for p in q.parts:
        if isinstance(p, Span) and p.n.const is not None:
            c = p.n.const
            if c <= 0:
                continue
            if c <= 4 and not q.perm and q.kind != 'range':
                for i in range(c):
                    parts.append(Item(vsubst(p.tmpl, {p.ix: L(i)})))
                continue
        parts.append(p)
    parts = tuple(parts)
    return q if parts == q.parts else q.replace(parts=parts)


def as_seq(self, v, st, node, consume=False):
    if isinstance(v, Seq):
        return [(st, v)]
    if isinstance(v, Un):
        out = []
        for w in v.vs:
            out.extend(self.as_seq(w, st.copy(), node, consume))
        return out
    if isinstance(v, Bot):
        return []
    if isinstance(v, Ref):
        if len(v.ids) == 1:
            (h,) = v.ids
            return obj_seq(self, h, st, node, consume)
        acc = None
        objs = tuple(st.heap.get(h) for h in sorted(v.ids, key=repr))
        key = (v.ids, st.ictx)
        rec = self.joined_refs.get(key)
        if rec is not None and not consume and len(rec[0]) == len(
            objs
        ) and all(x is y for x, y in zip(rec[0], objs)):
            bound_length(st, rec[1].length(), rec[2])
            return [(st, rec[1])]
        lens = []
        for h in sorted(v.ids, key=repr):
            for s2, q in obj_seq(self, h, st, node, consume):
                lens.append(q.length())
                acc = q if acc is None else self.join_vals(acc, q)
        if acc is None:
            return []
        if isinstance(acc, Seq):
            q = self.weak_elem(acc)
            bound_length(st, q.length(), lens)
            if not consume:
                self.joined_refs[key] = (objs, q, lens)
            return [(st, q)]
        return [(st, self.mk_span('list', self.nn_atom(st), Opq(fresh('o'))))]
    if isinstance(v, Const) and isinstance(v.v, str):
        if len(v.v) <= 8:
            return [(st, self.mk_tuple([Const(c) for c in v.v]))]
        return [(st, self.mk_span('tuple', L(len(v.v)), Opq(('chr', v.v))))]
    if isinstance(v, Composed) and v.op == 'seqlike':
        return [(st, v.args[0])]
    if isinstance(v, Composed) and v.op == 'enum':
        q, start = v.args
        el = self.weak_elem(q)
        if not el.parts:
            return [(st, el)]
        p = el.parts[0]
        e = p.v if isinstance(p, Item) else p.tmpl
        n = el.length()
        ix = p.ix if isinstance(p, Span) else new_ix('en')
        a = A(fresh('enx') + st.ictx + (A(ix),))
        return [
            (
                st,
                self.mk_span(
                    'iter', n, self.mk_tuple([Int(start.l + a), e])
                ).replace(
                    parts=(
                        Span(
                            ix, n, self.mk_tuple([Int(start.l + a), e])
                        ),
                    )
                ),
            )
        ]
    if isinstance(v, Composed) and v.op == 'chained':
        # lazily chained finite iterables
        return [(st, v.args[0])]
    if isinstance(v, Cls) and self.is_enum(v):
        items = []
        for n in v.node.body:
            import ast

            if isinstance(n, ast.Assign) and isinstance(
                n.targets[0], ast.Name
            ):
                fr = self.base.frames.get(('C', nid(v.node)), {})
                x = fr.get(n.targets[0].id)
                if x is not None:
                    items.append(x)
        return [(st, self.mk_tuple(items))]
    if isinstance(v, Const):
        self.raise_(st, Lib('builtins.TypeError'), node)
        return []
    if isinstance(v, (Int, Bool, Fn, Sc, Strat)):
        self.raise_(st, Lib('builtins.TypeError'), node)
        return []
    if isinstance(v, (Opq, LibObj)):
        t = getattr(v, 't', None)
        return [
            (
                st,
                self.mk_span(
                    'list',
                    A(('nn', ('len', t))),
                    Opq(('elof', t), 'element of unknown sequence'),
                ),
            )
        ]
    self.undecided(node, 'iteration over %r' % (v,))


def bound_length(st, n, lens):
    """Bounds shared by the alternatives of a length."""
    if n.const is not None or CHEAP or n in lens:
        return
    for c in (4, 3, 2, 1):
        if all(entails(st, f_lin(m - c)) for m in lens):
            st.assume(f_lin(n - c))
            break
    for t in lens:
        if all(m is t or entails(st, f_lin(m - t)) for m in lens):
            st.assume(f_lin(n - t))
        if all(m is t or entails(st, f_lin(t - m)) for m in lens):
            st.assume(f_lin(t - n))


def obj_seq(self, h, st, node, consume):
    o = st.heap.get(h)
    if o is None:
        return []
    if isinstance(o, H.HSeq):
        q = o.seq
        if o.kind in ('set', 'frozenset', 'redblack'):
            n = q.length()
            if 'unique' not in q.tags and not (
                len(q.parts) <= 1
                and (not q.parts or isinstance(q.parts[0], Item))
            ):
                el = self.weak_elem(q)
                at = ('nn', ('setlen', q.sid)) + st.ictx
                st.assume(f_lin(n - A(at)))
                if ge(st, n, ONE):
                    st.assume(f_lin(A(at) - 1))
                if el.parts:
                    p = el.parts[0]
                    q = el.replace(parts=(Span(p.ix, A(at), p.tmpl),))
            tags = {'unique'}
            if o.kind != 'redblack':
                tags.add('unordered')
            q = q.replace(tags=q.tags | tags, subs=q.subs)
            return [(st, q)]
        return [(st, q)]
    if isinstance(o, H.HIter):
        q = o.seq
        if consume:
            self.check_mut(o, node, st)
            st.heap[h] = H.HIter(
                q.replace(parts=(), perm=False), ZERO, o.phase, o.summary,
                o.site,
            )
        if o.pos.const == 0:
            return [(st, q)]
        out = []
        for s, r in self.slice_seq(q, Int(o.pos), NONE, NONE, st, node):
            out.extend(self.as_seq(r, s, node))
        return out
    if isinstance(o, H.HDict):
        if isinstance(o.sk, Bot):
            return [(st, self.mk_tuple([k for k, _ in o.items]))]
        el = o.sk
        for k, _ in o.items:
            el = wjoin(el, weaken(k, st))
        sp = self.mk_span('list', self.nn_atom(st), el)
        return [(st, open_span(sp, st))]
    if isinstance(o, H.HObj):
        r = self.cls_lookup(o.cls, '__iter__')
        if r is not None:
            out = []
            for s, v in self.call(r, [Ref(frozenset([h]))], {}, st, node):
                out.extend(self.as_seq(v, s, node, consume))
            return out
    return [(st, self.mk_span('list', self.nn_atom(st), Opq(fresh('o'))))]


def copy_seq(self, q, kind=None):
    return q.replace(kind=kind or q.kind)


def weak_elem(self, q, n=None, st=None):
    """One-span over-approximation (element order and position lost)."""
    els = seq_elems(q)
    ln = n if n is not None else q.length()
    if (
        len(q.parts) == 1
        and isinstance(q.parts[0], Span)
        and n is None
        and not q.perm
    ):
        return q
    if not q.parts:
        return q.replace(perm=False)
    ix = new_ix('w')
    acc = BOT
    for p in q.parts:
        e = p.v if isinstance(p, Item) else p.tmpl
        if isinstance(p, Span):
            # position-dependent atoms become functions of an unknown index
            e = vsubst(e, {p.ix: A(fresh('wi') + (A(ix),))})
        acc = e if isinstance(acc, Bot) else self.join_elem(acc, e, ix)
    return Seq(
        q.kind,
        (Span(ix, ln, acc),),
        False,
        q.tags & {'unordered', 'unique'},
        fresh_id('q'),
        q.subs,
        q.site,
    )


def join_elem(self, x, y, ix):
    if x == y:
        return x
    from .state import State

    s = State()
    s.ictx = (A(ix),)
    j = Joiner(s, s)
    return j.join(x, y)


def part_choices(self, q):
    return list(range(len(q.parts)))


def set_seq(self, ref, q, st, node):
    self.mutate(ref, lambda _: q, st, node)


def mutate(self, ref, fn, st, node):
    if isinstance(ref, Un):
        for w in ref.vs:
            self.mutate(w, fn, st, node)
        return
    if not isinstance(ref, Ref):
        if isinstance(ref, (Seq, Geo)):
            self.event(
                'mutate', node, st, what='%s value' % type(ref).__name__,
                phase=0, now=self.phase,
            )
        return
    strong = len(ref.ids) == 1
    for h in ref.ids:
        o = st.heap.get(h)
        if not isinstance(o, H.HSeq):
            continue
        self.check_mut(o, node, st)
        nq = fn(o.seq)
        if getattr(self, 'ghost_unord', 0) and o.kind in ('list', 'deque'):
            # a sequence built while iterating an unordered collection
            nq = nq.replace(tags=nq.tags | {'unordered'})
        if not strong or o.summary:
            nq = self.join_vals(o.seq, nq)
        st.heap[h] = o.with_seq(nq.replace(kind=o.kind))


def extend_seq(self, ref, q, st, node):
    unord = 'unordered' in q.tags

    def f(old):
        tags = frozenset({'unordered'}) if (
            unord or 'unordered' in old.tags
        ) else frozenset()
        a = self.weak_elem(old) if old.perm else old
        b = self.weak_elem(q) if q.perm else q
        if not a.parts:
            return b.replace(
                kind=old.kind, tags=b.tags, perm=False, site=old.site
            )
        # fresh indices keep the spans apart
        parts = []
        used = {p.ix for p in a.parts if isinstance(p, Span)}
        for p in b.parts:
            if isinstance(p, Span) and p.ix in used:
                ix = new_ix()
                p = Span(ix, p.n, vsubst(p.tmpl, {p.ix: A(ix)}))
            parts.append(p)
        return old.replace(
            parts=a.parts + tuple(parts),
            perm=False,
            sid=fresh_id('q'),
            tags=tags,
            subs=frozenset(),
        )

    self.mutate(ref, f, st, node)


def to_iter(self, q, st, node):
    hid = fresh_id('h')
    st.heap[hid] = H.HIter(q, ZERO, self.phase, False, self.site(node))
    return Ref(frozenset([hid]))


# --------------------------------------------------------------- access
def elem_at(self, q, i, st, node):
    """Element number i (0 <= i < len assumed by the caller's contract)."""
    n = q.length()
    if CHEAP:
        it = q.items()
        if it is not None and not q.perm and i.const is not None:
            if -len(it) <= i.const < len(it):
                return [(st, it[i.const])]
        w = self.weak_elem(q)
        if not w.parts:
            return []
        p = w.parts[0]
        return [
            (
                st,
                p.v
                if isinstance(p, Item)
                else vsubst(p.tmpl, {p.ix: A(fresh('ci') + st.ictx)}),
            )
        ]
    return [
        (s, mark_at(v, q.sid, i)) for s, v in elem_at2(self, q, i, st, node)
    ]


def mark_at(v, sid, i):
    """Remember the position of a point read from a list of several runs."""
    if isinstance(v, Geo) and v.kind == 'Point':
        if not any(t[0] == 'at' for t in v.tags):
            return v.replace(tags=v.tags | {('at', sid, i)})
    return v


def elem_at2(self, q, i, st, node):
    n = q.length()
    if i.const is not None and i.const < 0:
        i = n + i
    elif i.const is None:
        t = truth(st, f_lin(i))
        if t is False:
            i = n + i
        elif t is None and negative_offset(i):
            # i may be -1 (contour idiom v[i - 1])
            out = []
            s2 = st.copy()
            if s2.assume(f_lin(-i - 1)):
                out.extend(self.elem_at(q, n + i, s2, node))
            if st.assume(f_lin(i)):
                out.extend(self.elem_at(q, i, st, node))
            return out
    # out of range raises
    d = n - i
    if d.const is not None:
        if d.const <= 0:
            self.raise_(st, Lib('builtins.IndexError'), node)
            return []
    else:
        t = truth(st, f_lin(d - 1))
        if t is False:
            self.raise_(st, Lib('builtins.IndexError'), node)
            return []
        if t is None:
            self.event('index', node, st, i=i, n=n)
            if not st.assume(f_lin(d - 1)):
                return []
    if q.perm:
        out = []
        for k, p in enumerate(q.parts):
            s2 = st.copy()
            if isinstance(p, Item):
                v = p.v
            else:
                if not s2.assume(f_lin(p.n - 1)):
                    continue
                j = ('d', ('pm', q.sid, k), i)
                s2.assume(f_lin(A(j)))
                s2.assume(f_lin(p.n - 1 - A(j)))
                v = vsubst(p.tmpl, {p.ix: A(j)})
            key = ('part', q.sid, i)
            d0 = s2.dom(key)
            if d0 is not None and k not in d0:
                continue
            s2.doms[key] = frozenset([k])
            out.append((s2, v))
        return out
    if not q.parts:
        self.raise_(st, Lib('builtins.IndexError'), node)
        return []
    if len(q.parts) == 1 and isinstance(q.parts[0], Span):
        p = q.parts[0]
        return [(st, vsubst(p.tmpl, {p.ix: i}))]
    out = []
    start = ZERO
    cur = st
    parts = list(q.parts)
    # from the back when the index is relative to the end
    for k, p in enumerate(parts):
        ln = ONE if isinstance(p, Item) else p.n
        end = start + ln
        inside = f_and([f_lin(i - start), f_lin(end - 1 - i)])
        t = truth(cur, inside)
        if t is False:
            start = end
            continue
        if t is True:
            out.append(
                (
                    cur,
                    p.v
                    if isinstance(p, Item)
                    else vsubst(p.tmpl, {p.ix: i - start}),
                )
            )
            return out
        s2 = cur.copy()
        if s2.assume(inside):
            out.append(
                (
                    s2,
                    p.v
                    if isinstance(p, Item)
                    else vsubst(p.tmpl, {p.ix: i - start}),
                )
            )
        cur = cur.copy()
        if not cur.assume(f_or([f_lin(start - 1 - i), f_lin(i - end)])):
            return out
        start = end
    return out


def negative_offset(i):
    return i.k < 0


def get_item(self, v, i, st, node):
    if isinstance(v, Un) or isinstance(i, Un):
        out = []
        for x in v.vs if isinstance(v, Un) else [v]:
            for y in i.vs if isinstance(i, Un) else [i]:
                out.extend(self.get_item(x, y, st.copy(), node))
        return out
    if isinstance(v, Bot) or isinstance(i, Bot):
        return []
    if isinstance(i, Composed) and i.op == 'slice':
        a = list(i.args)
        if len(a) == 1:
            a = [NONE] + a
        a += [NONE] * (3 - len(a))
        return self.slice_seq(v, a[0], a[1], a[2], st, node)
    if isinstance(v, Lib) or isinstance(v, Cls):
        return [(st, v)]  # generic alias
    if isinstance(v, (Opq, LibObj, CtxAttr)):
        return [(st, Opq(('item', getattr(v, 't', None)), 'item'))]
    if isinstance(v, Ref) and len(v.ids) >= 1:
        o = st.heap.get(next(iter(v.ids)))
        if isinstance(o, H.HDict):
            return dict_get(self, v, i, st, node)
        if isinstance(o, H.HObj):
            r = self.cls_lookup(o.cls, '__getitem__')
            if r is not None:
                return self.call(r, [v, i], {}, st, node)
    if isinstance(i, Bool):
        out = []
        for s, b in self.branch(st, i, node):
            out.extend(self.get_item(v, I(int(b)), s, node))
        return out
    li = int_of(i)
    if li is None:
        if isinstance(i, (Opq, LibObj)):
            out = []
            for s, q in self.as_seq(v, st, node):
                w = self.weak_elem(q)
                if w.parts:
                    p = w.parts[0]
                    e = p.v if isinstance(p, Item) else vsubst(
                        p.tmpl, {p.ix: A(fresh('gi') + s.ictx)}
                    )
                    out.append((s, e))
            return out
        self.raise_(st, Lib('builtins.TypeError'), node)
        return []
    out = []
    for s, q in self.as_seq(v, st, node):
        if 'unordered' in q.tags and not (q.length().const or 2) <= 1:
            self.event('unordered', node, s, what='indexing')
        out.extend(self.elem_at(q, li, s, node))
    return out


def dict_get(self, v, i, st, node):
    out = []
    for h in v.ids:
        o = st.heap.get(h)
        if not isinstance(o, H.HDict):
            continue
        cur = st.copy()
        dead = False
        for k, w in o.items:
            for s, r in self.compare('Eq', i, k, cur, node):
                cur = None
                for s2, b in self.branch(s, r, node):
                    if b:
                        out.append((s2, w))
                    else:
                        cur = s2
                break
            if cur is None:
                dead = True
                break
        if not dead and not isinstance(o.sk, Bot):
            out.append((cur, o.sv))
        elif not dead:
            self.raise_(cur, Lib('builtins.KeyError'), node)
    return out


def slice_seq(self, v, lo, hi, step, st, node):
    if isinstance(v, Un):
        out = []
        for w in v.vs:
            out.extend(self.slice_seq(w, lo, hi, step, st.copy(), node))
        return out
    for name, x in (('lo', lo), ('hi', hi), ('step', step)):
        if isinstance(x, (Un, Bool)):
            out = []
            alts = (
                [(st.copy(), w) for w in x.vs]
                if isinstance(x, Un)
                else [
                    (s, I(int(b))) for s, b in self.branch(st, x, node)
                ]
            )
            for s, w in alts:
                a = {'lo': lo, 'hi': hi, 'step': step}
                a[name] = w
                out.extend(
                    self.slice_seq(v, a['lo'], a['hi'], a['step'], s, node)
                )
            return out
    if isinstance(v, (Opq, LibObj)):
        return [(st, Opq(('slice', getattr(v, 't', None)), 'slice'))]
    if isinstance(v, Const) and isinstance(v.v, str):
        return [(st, LibObj('str', fresh_id('sl')))]
    out = []
    for s, q in self.as_seq(v, st, node):
        if 'unordered' in q.tags:
            self.event('unordered', node, s, what='slicing')
        for s2, r in slice_q(self, q, lo, hi, step, s, node):
            out.append((s2, self.rewrap(v, r, s2, node)))
    return out


def clamp_ix(self, x, n, default, st):
    """Python slice bound -> Lin within [0, n], with case splits."""
    if isinstance(x, Const) and x.v is None:
        return [(st, default)]
    l = int_of(x)
    if l is None:
        a = A(fresh('sb') + st.ictx)
        st.assume(f_lin(a))
        st.assume(f_lin(n - a))
        return [(st, a)]
    out = []
    cases = []
    if l.const is not None:
        cases = [(st, l if l.const >= 0 else n + l, l.const < 0)]
    else:
        t = truth(st, f_lin(l))
        if t is not False:
            s = st.copy() if t is None else st
            if t is True or s.assume(f_lin(l)):
                cases.append((s, l, False))
        if t is not True:
            if t is False or st.assume(f_lin(-l - 1)):
                cases.append((st, n + l, True))
    for s, b, neg in cases:
        if neg:
            t = truth(s, f_lin(b))
            if t is True:
                out.append((s, b))
                continue
            if t is False:
                out.append((s, ZERO))
                continue
            s2 = s.copy()
            if s2.assume(f_lin(b)):
                out.append((s2, b))
            if s.assume(f_lin(-b - 1)):
                out.append((s, ZERO))
            continue
        t = truth(s, f_lin(n - b))
        if t is True:
            out.append((s, b))
        elif t is False:
            out.append((s, n))
        else:
            out.append((s, mk_extreme('min', (b, n))))
    return out


def slice_q(self, q, lo, hi, step, st, node):
    n = q.length()
    stp = None
    if not (isinstance(step, Const) and step.v is None):
        l = int_of(step)
        stp = l.const if l is not None else 0
        if stp == 1:
            stp = None
    if stp is not None:
        its = q.items()
        consts = [
            None
            if isinstance(x, Const) and x.v is None
            else int_of(x).const
            if int_of(x) is not None
            else 'x'
            for x in (lo, hi)
        ]
        if its is not None and 'x' not in consts and not q.perm and stp:
            r = its[consts[0]:consts[1]:stp]
            return [(st, self.mk_tuple(r, q.kind).replace(
                subs=q.subs | {q.sid}))]
        if stp == -1:
            r = self.reverse_seq(q)
            if consts == [None, None]:
                return [(st, r)]
            # v[:a:-1] is the reversal without the first a + 1 elements
            if consts[0] is None and isinstance(consts[1], int) and (
                consts[1] >= 0
            ):
                k = n - (consts[1] + 1)
                t = truth(st, f_lin(k))
                if t is not True:
                    k = mk_extreme('max', (k, ZERO))
                return slice_q(self, r, NONE, Int(k), NONE, st, node)
            if consts[1] is None and isinstance(consts[0], int):
                # v[b::-1]
                b = consts[0]
                if b < 0:
                    return slice_q(
                        self, r, I(-b - 1), NONE, NONE, st, node
                    )
        ln = self.nn_atom(st)
        st.assume(f_lin(n - ln))
        w = self.weak_elem(q, ln, st)
        return [
            (
                st,
                w.replace(
                    subs=q.subs | {q.sid},
                    tags=q.tags & {'unique', 'unordered'},
                ),
            )
        ]
    if (isinstance(lo, Const) and lo.v is None) and (
        isinstance(hi, Const) and hi.v is None
    ):
        return [(st, q)]
    if q.perm:
        if len(q.parts) > 1:
            q = self.weak_elem(q)
        q = q.replace(perm=False)
    out = []
    for s, a in clamp_ix(self, lo, n, ZERO, st):
        for s2, b in clamp_ix(self, hi, n, n, s):
            ln = b - a
            t = (
                (ln.const >= 0)
                if ln.const is not None
                else truth(s2, f_lin(ln))
            )
            if t is False:
                out.append((s2, sub_seq(self, q, a, ZERO, s2)))
                continue
            if t is None:
                s3 = s2.copy()
                if s3.assume(f_lin(-ln - 1)):
                    out.append((s3, sub_seq(self, q, a, ZERO, s3)))
                if not s2.assume(f_lin(ln)):
                    continue
            out.append((s2, sub_seq(self, q, a, ln, s2)))
    return out


def sub_seq(self, q, a, ln, st):
    keep = dict(
        tags=q.tags & {'unique', 'unordered', 'sorted'},
        subs=q.subs | ({q.sid} if q.sid is not None else set()),
        sid=fresh_id('q'),
    )
    if ln.const == 0:
        return q.replace(parts=(), perm=False, **keep)
    if len(q.parts) == 1 and isinstance(q.parts[0], Span):
        p = q.parts[0]
        if a.const == 0 and ln == p.n:
            return q
        ix = new_ix()
        r = q.replace(
            parts=(Span(ix, ln, vsubst(p.tmpl, {p.ix: A(ix) + a})),), **keep
        )
        return r
    # walk parts with entailed positions
    parts = []
    start = ZERO
    end = a + ln
    for p in q.parts:
        pl = ONE if isinstance(p, Item) else p.n
        pe = start + pl
        if ge(st, a, pe) or ge(st, start, end):
            start = pe
            continue
        if ge(st, start, a) and ge(st, end, pe):
            parts.append(p)
        elif isinstance(p, Span):
            lo = ZERO if ge(st, start, a) else a - start
            hi = p.n if ge(st, end, pe) else end - start
            if not (ge(st, lo, ZERO) and ge(st, p.n, hi)
                    and ge(st, hi, lo)):
                parts = None
                break
            ix = new_ix()
            parts.append(
                Span(ix, hi - lo, vsubst(p.tmpl, {p.ix: A(ix) + lo}))
            )
        else:
            parts = None
            break
        start = pe
    if parts is not None:
        return q.replace(parts=tuple(parts), perm=False, **keep)
    w = self.weak_elem(q)
    p = w.parts[0]
    ix = new_ix()
    return q.replace(
        parts=(Span(ix, ln, vsubst(p.tmpl, {p.ix: A(ix) + a})),),
        perm=False,
        **keep
    )


def reverse_seq(self, q):
    if q.perm:
        return q
    parts = []
    for p in reversed(q.parts):
        if isinstance(p, Span):
            ix = new_ix()
            parts.append(
                Span(ix, p.n, vsubst(p.tmpl, {p.ix: p.n - 1 - A(ix)}))
            )
        else:
            parts.append(p)
    return q.replace(
        parts=tuple(parts),
        sid=fresh_id('q'),
        tags=frozenset(
            {
                'rev': 'fwd',
                'ccw': 'cw',
                'cw': 'ccw',
            }.get(t, t)
            for t in q.tags
            if t not in ('sorted',)
        ),
        subs=q.subs | ({q.sid} if q.sid is not None else set()),
    )


def sorted_seq(self, q, st, node, key=None, reverse=None):
    """Contract of sorted(): a permutation in ascending order."""
    n = q.length()
    tags = q.tags - {'unordered'}
    subs = q.subs | ({q.sid} if q.sid is not None else set())
    # a drawn list of unique scalars becomes an order-indexed family
    if (
        key is None
        and reverse is None
        and len(q.parts) == 1
        and isinstance(q.parts[0], Span)
        and isinstance(q.parts[0].tmpl, Sc)
    ):
        p = q.parts[0]
        sid = ('srt', q.sid)
        ix = new_ix()
        if 'unique' in q.tags:
            SORTED[sid] = True
            UNIQUE[sid] = True
        e = A(('e', sid, A(ix)))
        v = Sc(e, p.tmpl.prov, ((sid, A(ix)),) if 'unique' in q.tags else ())
        return q.replace(
            parts=(Span(ix, n, v),),
            perm=False,
            tags=tags | {'sorted'},
            sid=sid,
            subs=subs,
        )
    it = q.items()
    if (
        it is not None
        and len(it) == 2
        and all(isinstance(x, Sc) for x in it)
        and key is None
        and reverse is None
    ):
        s2 = st.copy()
        return None  # handled by the caller through case splitting
    w = self.weak_elem(q)
    if w.parts:
        p = w.parts[0]
        if isinstance(p, Span):
            ix = new_ix()
            w = w.replace(
                parts=(
                    Span(
                        ix,
                        p.n,
                        vsubst(
                            p.tmpl,
                            {
                                p.ix: A(
                                    (
                                        'd',
                                        ('perm', q.sid, 's'),
                                        A(ix),
                                    )
                                )
                            },
                        ),
                    ),
                )
            )
    return w.replace(
        perm=False, tags=tags, subs=subs, sid=fresh_id('q')
    )


def span_fact_sum(self, *a):
    return None
