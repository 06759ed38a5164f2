"""Calls of closed functions on reference-free arguments, analysed with the
facts about their arguments only (the caller's other facts stay valid)."""
from .join import atoms_of, refs_in
from .state import f_atoms
from .terms import nested_atoms
from .values import V

ROUNDS = 2


def simple_args(args, kw):
    for v in list(args) + list(kw.values()):
        if not isinstance(v, V):
            return False
        r = refs_in(v)
        if r[0] or r[1]:
            return False
    return True


def cone(st, rel):
    lins, left = {}, list(st.lins)
    disj, dleft = [], []
    for f in st.disj:
        acc = set()
        f_atoms(f, acc)
        dleft.append((f, acc))
    for _ in range(ROUNDS):
        new = set()
        rest = []
        for l in left:
            hit = False
            for a in l.c:
                if a in rel:
                    hit = True
                    break
            if hit:
                lins[l] = None
                for a in l.c:
                    new.add(a)
                    new |= nested_atoms(a)
            else:
                rest.append(l)
        left = rest
        dr = []
        for f, acc in dleft:
            if acc & rel:
                disj.append(f)
                new |= acc
            else:
                dr.append((f, acc))
        dleft = dr
        if new <= rel:
            break
        rel = rel | new
    return lins, tuple(disj), left


def call_isolated(I, fn, args, kw, st, node):
    rel = set()
    for v in list(args) + list(kw.values()):
        rel |= atoms_of(v)
    for a in st.ictx:
        for x in a.c:
            rel.add(x)
    lins, disj, left = cone(st, rel)
    s = st.copy()
    s.lins, s.disj = lins, disj
    s.frames = {
        k: dict(v) for k, v in st.frames.items() if not isinstance(k, int)
    }
    keep = {h: o for h, o in st.heap.items()}
    mark = len(I.catch[-1]) if I.catch else 0
    I.hidden.append((st, left))
    try:
        outs = I.call_fn2(fn, args, kw, s, node)
    finally:
        I.hidden.pop()

    def merge(r):
        for k, v in st.frames.items():
            if isinstance(k, int):
                r.frames[k] = dict(v)
        hp = dict(keep)
        hp.update(r.heap)
        r.heap = hp
        for l in st.lins:
            r.lins.setdefault(l)
        for f in st.disj:
            if f not in r.disj:
                r.disj = r.disj + (f,)
        for f in st.exs:
            if f not in r.exs:
                r.exs = r.exs + (f,)
        for k, v in st.lits.items():
            r.lits.setdefault(k, v)
        for k, v in st.doms.items():
            r.doms[k] = r.doms[k] & v if k in r.doms else v
        r.nn = {}
        r.ictx = st.ictx

    for r, _ in outs:
        merge(r)
    if I.catch:
        for r, _, _ in I.catch[-1][mark:]:
            merge(r)
    return outs
