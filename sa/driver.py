"""Entry points: analyse a public function under a parameter shape."""
from .interp import Interp, PKG, Undecided
from .state import f_lin
from .terms import A, L
from .values import *

CX = Strat('leaf', ('CX',))
CY = Strat('leaf', ('CY',))


def param(n):
    return Int(A(('p', n)))


def signature(I, name):
    st = I.base
    fn = st.frames['M:' + PKG + '.planar'].get(name)
    if not isinstance(fn, Fn):
        return None, []
    a = fn.node.args
    return fn, [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


def engine(root):
    I = Interp(root)
    I.load(PKG + '.planar')
    return I


def build(I, name, none=(), ctx='C', y=True, given=None, omit=(), pre=(),
          track=False):
    """Factory outcomes for a shape: (outs, raised, events).

    none: maximums passed as None; omit: arguments left out; pre: formulas
    over the parameters assumed to hold.
    """
    fn, names = signature(I, name)
    st = I.new_state()
    if track:
        st.ghost['warns'] = frozenset([()])
    for f in pre:
        if not st.assume(f):
            return [], [], []
    a = fn.node.args
    posonly = {x.arg for x in a.posonlyargs}
    args, kw = [], {}
    for n in names:
        v = None
        if n in omit:
            continue
        if given and n in given:
            v = given[n]
        elif n in ('x_coordinates',):
            v = CX
        elif n in ('y_coordinates',):
            v = CX if y == 'same' else CY if y else NONE
        elif n == 'context':
            v = Ctx(ctx) if ctx else NONE
        elif n.startswith('max_'):
            v = NONE if n in none else param(n)
        elif n.startswith('min_'):
            v = param(n)
        else:
            continue
        if n in posonly:
            args.append(v)
        else:
            kw[n] = v
    I.phase = 1
    I.catch.append([])
    mark = len(I.events)
    try:
        outs = I.call(fn, args, kw, st, fn.node)
    finally:
        raised = I.catch.pop()
        I.phase = 0
    return outs, raised, I.events[mark:]


def alternatives(v):
    """A strategy as a list of strategies free of top-level unions."""
    if isinstance(v, Un):
        return [x for w in v.vs for x in alternatives(w)]
    if not isinstance(v, Strat):
        return [v]
    if v.op == 'or':
        return [x for w in v.args for x in alternatives(w)]
    if v.op in ('map', 'filter', 'flatmap') and isinstance(
        v.args[0], (Strat, Un)
    ):
        xs = alternatives(v.args[0])
        if len(xs) > 1:
            return [v.replace(args=(x,) + v.args[1:]) for x in xs]
    return [v]


def split(outs):
    return [(s, x) for s, v in outs for x in alternatives(v)]


def draws(I, outs):
    res = []
    for s, v in outs:
        I.catch.append([])
        I.temps[:] = [v]
        I.stack[:] = []
        try:
            for s2, w in I.draw(v, s.copy(), None) if isinstance(
                v, Strat
            ) else ():
                res.append((s2, w))
        finally:
            I.catch.pop()
    return res
