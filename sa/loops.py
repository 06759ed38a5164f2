"""Loops: fixpoints with an iteration counter, exact templates at exit."""
from . import heap as H
from .join import Joiner, atoms_of, gc, prune, refs_in, st_subst
from .state import (
    CHEAP,
    State,
    entails,
    f_atoms,
    f_eq,
    f_lin,
    f_subst,
    idx_atoms,
)
from .terms import A, L, Lin, ONE, ZERO, nested_atoms, subst_lin
from .values import *
from .values import V, _counter

MAX_PASSES = 7
UNROLL = 3
DEBUG = {}


def state_mentions(st, pred):
    for l in st.lins:
        for a in l.c:
            if pred(a) or any(pred(b) for b in nested_atoms(a)):
                return True
    for fr in st.frames.values():
        for v in fr.values():
            if isinstance(v, V) and any(pred(a) for a in atoms_of(v)):
                return True
    for o in st.heap.values():
        for v in o.values():
            if any(pred(a) for a in atoms_of(v)):
                return True
        if isinstance(o, H.HIter) and any(
            pred(b) for a in o.pos.c for b in nested_atoms(a)
        ):
            return True
    return False


def loop_name(I, node, st, tag):
    base = (tuple(I.stack[-1:]), nid(node), tag)
    key = I.loop_ids.setdefault(base, len(I.loop_ids) + 1)
    I._keep = getattr(I, '_keep', [])
    I._keep.append(node)
    n = 0
    ic = st.ictx
    while True:
        name = (key, n)

        def pred(a):
            return (
                isinstance(a, tuple)
                and len(a) >= 2
                and a[0] == 'd'
                and isinstance(a[1], tuple)
                and len(a[1]) == 4
                and a[1][0] == 'h'
                and a[1][1] == name
                and a[2:2 + len(ic)] == ic
            )

        if n > 30 or not (
            state_mentions(st, pred)
            or any(
                pred(a) or any(pred(b) for b in nested_atoms(a))
                for _, left in I.hidden
                for l in left
                for a in l.c
            )
            or any(state_mentions(s2, pred) for s2, _ in I.hidden)
        ):
            return name
        n += 1


def solved(st, head, kappa):
    """Head atoms expressible through the counter and invariants."""
    m = {}
    for l in st.lins:
        if -l not in st.lins:
            continue
        hs = [a for a in l.c if a in head and a != kappa]
        if len(hs) != 1 or hs[0] in m:
            continue
        (h,) = hs
        if abs(l.c[h]) != 1:
            continue
        if any(
            b in head and b != kappa
            for a in l.c
            if a != h
            for b in nested_atoms(a)
        ):
            continue
        rest = Lin({a: v for a, v in l.c.items() if a != h}, l.k)
        m[h] = -rest if l.c[h] == 1 else rest
    return m


def run_loop(
    I, node, target, q, body, st, fid, orelse, test, forever, split,
    binder=None, tag=0,
):
    """[(ctl, state, value)] of a loop over q (or a while loop)."""

    def bind(v, s):
        if isinstance(v, Bot):
            return []
        if binder is not None:
            return binder(v, s)
        if target is None:
            return [s]
        return I.assign_loop(target, v, s, fid)

    def finish(s):
        if orelse:
            return I.exec_block(orelse, s, fid)
        return [(None, s, None)]

    brk = 'brk' if split else None
    if q is not None and not q.perm:
        n = q.length()
        if n.const is not None and n.const <= UNROLL:
            cur, out = [st], []
            for i in range(n.const):
                nxt = []
                for s in cur:
                    for s1, v in I.elem_at(q, L(i), s, node):
                        for s2 in bind(v, s1):
                            for ctl, s3, r in body(s2):
                                if ctl in (None, 'cnt'):
                                    nxt.append(s3)
                                elif ctl == 'brk':
                                    out.append((brk, s3, None))
                                else:
                                    out.append((ctl, s3, r))
                cur = I.compact(nxt, node)
            for s in cur:
                out.extend(finish(s))
            return out
    name = loop_name(I, node, st, tag)
    st.nn = {}
    outer = st.ictx
    kappa = ('d', ('h', name, 'k', 0)) + outer
    K = A(kappa)
    head = {kappa}
    n = q.length() if q is not None else None
    if q is not None:
        I.temps.append(q)
    try:
        return run_loop2(
            I, node, q, body, st, fid, test, forever, bind, finish, brk,
            name, outer, kappa, K, head, n,
        )
    finally:
        if q is not None:
            I.temps.pop()


def run_loop2(
    I, node, q, body, st, fid, test, forever, bind, finish, brk, name,
    outer, kappa, K, head, n,
):
    entry = st.copy()
    cur = st
    cur_first = True
    temps0 = list(I.live_temps())
    shown = None
    ev_mark = len(I.events)
    catch_mark = len(I.catch[-1]) if I.catch else 0
    passes = 0
    exits = []
    backs = []
    while True:
        passes += 1
        if DEBUG:
            key = (I.site(node), name, outer and len(outer))
            d = DEBUG.setdefault(key, [0, 0, 0, 0.0])
            d[0] += passes == 1
            d[1] += 1
            d[2] = max(d[2], passes)
        del I.events[ev_mark:]
        if I.catch:
            del I.catch[-1][catch_mark:]
        exits, backs, normal = [], [], []
        s0 = cur.copy()
        ok = s0.assume(f_lin(K))
        if cur_first:
            ok = ok and s0.assume(f_lin(-K))
        # leaving normally
        if test is None and n is not None:
            ex = cur.copy()
            if cur_first:
                alive = ex.assume(f_eq(n, ZERO)) if n.const is None else (
                    n.const == 0
                )
            else:
                alive = True
            if alive:
                normal.append(ex)
        starts = []
        if ok and q is not None:
            if s0.assume(f_lin(n - 1 - K)):
                s0.ictx = outer + (K,)
                starts = [
                    s2
                    for s1, v in loop_elem(I, q, K, s0, node)
                    for s2 in bind(v, s1)
                ]
        elif ok and test is not None:
            s0.ictx = outer + (K,)
            for s1, b in I.cond(test, s0, fid):
                if b:
                    starts.append(s1)
                else:
                    normal.append(s1)
            starts = I.compact(starts, node)
        elif ok:
            s0.ictx = outer + (K,)
            v = forever if forever is not None else Opq(
                fresh('it') + s0.ictx
            )
            starts = [s2 for s2 in bind(v, s0)]
        for s1 in starts:
            for ctl, s2, r in body(s1):
                if ctl in (None, 'cnt'):
                    backs.append(s2)
                else:
                    exits.append((ctl, s2, r))
        if not backs:
            break
        if len(backs) > 1:
            backs = I.compact(backs, node)
        if len(backs) > 1:
            backs = [I.join_outs([(s, NONE) for s in backs])[0]]
        b = backs[0].copy()
        b.ictx = outer
        st_subst(b, {kappa: K - 1})
        gc(b, I.stack, temps0, I.parents)
        prune(b, temps0, head)
        a = cur
        if cur_first:
            gc(a, I.stack, temps0, I.parents)
        prune(a, temps0, head)
        j = Joiner(
            a, b, name, head, lambda t: t == kappa or t in head
        )
        j.pass_no = passes
        j.pairs.append((kappa, ZERO if cur_first else K, K))
        j.pair_memo[(ZERO if cur_first else K, K, ())] = K
        new, _ = j.run(I.stack, temps0, temps0)
        new.ictx = outer
        new.memo = cur.memo
        if DEBUG:
            DEBUG[key][3] = (len(new.lins), len(new.heap), len(backs), len(new.disj), [x for x in j.why][:4])
        if not cur_first and (not j.changed or passes >= MAX_PASSES):
            break
        cur = new
        cur_first = False
    # ------------------------------------------------------------- results
    out = []
    if not backs:
        # the body never completes an iteration
        for s in normal:
            m = {kappa: ZERO}
            s.ictx = outer
            st_subst(s, m)
            out.extend(finish(s))
        for ctl, s, r in exits:
            s.ictx = outer
            m = {kappa: ZERO}
            st_subst(s, m)
            r = vsubst(r, m) if isinstance(r, V) else r
            out.append((brk if ctl == 'brk' else ctl, s, r))
        return out
    fam = families(I, entry, cur, backs[0], head, kappa, name)
    for s in normal:
        s.ictx = outer
        upto = n if test is None else K
        apply_families(I, s, fam, upto, head, kappa)
        if test is None:
            st_subst(s, {kappa: n})
        else:
            st_subst(s, {kappa: A(fresh('ke') + outer)})
        out.extend(finish(s))
    for ctl, s, r in exits:
        s.ictx = outer
        k2 = A(fresh('kb') + outer)
        apply_families(I, s, fam, K, head, kappa)
        m = {kappa: k2}
        st_subst(s, m)
        r = vsubst(r, m) if isinstance(r, V) else r
        out.append((brk if ctl == 'brk' else ctl, s, r))
    return out


def loop_elem(I, q, K, st, node):
    if not q.perm:
        return I.elem_at(q, K, st, node)
    num = [t[1] for t in q.tags if isinstance(t, tuple) and t[0] == 'enum']
    if num:
        q2 = q.replace(tags=frozenset())
        return [
            (s, I.mk_tuple([Int(num[0] + K), v]))
            for s, v in loop_elem(I, q2, K, st, node)
        ]
    out = []
    for i, p in enumerate(q.parts):
        s = st.copy()
        s.doms[('part', q.sid, K)] = frozenset([i])
        if isinstance(p, Item):
            out.append((s, p.v))
        else:
            c = A(fresh('pi') + s.ictx)
            if not s.assume(f_lin(c)) or not s.assume(f_lin(p.n - 1 - c)):
                continue
            out.append((s, vsubst(p.tmpl, {p.ix: c})))
    return out


def families(I, entry, headst, back, head, kappa, name):
    """Lists that get exactly one element per iteration, as exact spans."""
    ix = ('ix', ('lp', name))
    if CHEAP:
        return ix, {}, [], {}, {}
    sol = solved(headst, head, kappa)
    lists = {}
    for h, o in headst.heap.items():
        if not isinstance(o, H.HSeq) or o.kind in ('set', 'redblack'):
            continue
        e, b = entry.heap.get(h), back.heap.get(h)
        if e is None or b is None or not isinstance(b, H.HSeq):
            continue
        hp, bp = o.seq.parts, b.seq.parts
        if o.seq.perm or b.seq.perm or e.seq.perm:
            continue
        if len(bp) != len(hp) + 1 or bp[: len(hp)] != hp:
            continue
        if not isinstance(bp[-1], Item):
            continue
        v = bp[-1].v
        if sol:
            v = vsubst(v, sol)
        if any(a in head and a != kappa for a in atoms_of(v)):
            continue
        lists[h] = (e.seq, vsubst(v, {kappa: A(ix)}), o.seq)
    facts = []
    if lists:
        m = dict(sol)

        def good(atoms):
            ok = False
            for a in atoms:
                na = nested_atoms(a) | {a}
                if any(x in head and x != kappa for x in na):
                    return False
                if a != kappa and kappa in na:
                    ok = True
            return ok

        for l in back.lins:
            x = subst_lin(l, m) if m else l
            if good(x.c):
                facts.append(
                    ('lin', subst_lin(x, {kappa: A(ix)}))
                )
        for f in back.disj:
            x = f_subst(f, m) if m else f
            acc = set()
            f_atoms(x, acc)
            if good(acc):
                facts.append(f_subst(x, {kappa: A(ix)}))
    lits = {}
    doms = {}
    if lists:
        from .terms import subst_term

        for src, dst in ((back.lits, lits), (back.doms, doms)):
            for k, v in src.items():
                na = nested_atoms(k) if isinstance(k, tuple) else ()
                if kappa in na and not any(
                    x in head and x != kappa for x in na
                ):
                    dst[subst_term(k, {kappa: A(ix)})] = v
    return ix, lists, facts, lits, doms


def apply_families(I, s, fam, upto, head, kappa):
    ix, lists, facts, lits, doms = fam
    for h, (eseq, v, hseq) in lists.items():
        o = s.heap.get(h)
        if o is None or not isinstance(o, H.HSeq):
            continue
        if o.seq != hseq:
            continue  # touched since the loop head
        used = {p.ix for p in eseq.parts if isinstance(p, Span)}
        i2 = ix
        vv = v
        if ix in used:
            i2 = ('ix', fresh_id('lp'))
            vv = vsubst(v, {ix: A(i2)})
        s.heap[h] = o.with_seq(
            eseq.replace(
                parts=eseq.parts + (Span(i2, upto, vv),),
                sid=fresh_id('q'),
                tags=eseq.tags & {'unordered'},
                subs=frozenset(),
                kind=o.kind if o.kind != 'deque' else eseq.kind,
            )
        )
    for f in facts:
        if f[0] == 'lin':
            s.lins[f[1]] = None
        elif f not in s.disj:
            s.disj = s.disj + (f,)
    s.lits.update(lits)
    s.doms.update(doms)


def loop_parts_fn(I, node, q, cell, body, st):
    """Iterate q handing the element over in cell['v']."""
    key = ('cell', nid(node))

    def bind(v, s):
        if isinstance(v, Bot):
            return []
        s.ghost[key] = v
        return [s]

    def body2(s):
        cell['v'] = s.ghost.pop(key)
        return body(s)

    def run(q1, s, tag):
        return run_loop(
            I, node, None, q1, body2, s, None, (), None, None, True, bind,
            tag,
        )

    if q.perm or (len(q.parts) == 1 and isinstance(q.parts[0], Span)):
        return run(q, st, 0)
    out = []
    cur = [st]
    for k, p in enumerate(q.parts):
        nxt = []
        for s in cur:
            if isinstance(p, Item):
                if isinstance(p.v, Bot):
                    continue
                cell['v'] = p.v
                outs = body(s)
            else:
                one = q.replace(parts=(p,), sid=fresh_id('q'))
                outs = run(one, s, k)
            for ctl, s3, v in outs:
                if ctl is None:
                    nxt.append(s3)
                else:
                    out.append((ctl, s3, v))
        cur = I.compact(nxt, node)
    return out + [(None, s, None) for s in cur]
