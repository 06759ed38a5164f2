"""Rules about argument validation (factory phase).

Every public factory is interpreted abstractly with its size parameters left
symbolic, once per choice of which maximums are None.  Each abstract outcome
(normal return, raised exception, failed assertion) carries linear facts over
the parameters.
"""
import itertools

from . import spec
from .driver import build, engine, signature
from .state import entails, f_and, f_lin, f_not, f_or, truth, unsat
from .terms import A, L, Lin
from .values import Lib, LibObj, Strat


def P(n):
    return A(('p', n))


def configs(name, tier='quick'):
    """Choices of the maximums passed as None."""
    maxes = [b for _, b, _ in spec.SIZES[name]]
    out = []
    for k in range(len(maxes) + 1):
        out.extend(itertools.combinations(maxes, k))
    return out


def clauses(name, none):
    """(invalid clauses [(text, formula)], validity formula)."""
    bad = []
    for lo, hi, floor in spec.SIZES[name]:
        if hi in none:
            continue
        bad.append(('%s < %d' % (hi, floor), f_lin(L(floor - 1) - P(hi))))
        bad.append(('%s > %s' % (lo, hi), f_lin(P(lo) - P(hi) - 1)))
        bad.append(('%s < 0' % lo, f_lin(L(-1) - P(lo))))
    if name == 'mixes':
        kinds = ['max_points_size', 'max_segments_size', 'max_polygons_size']
        for x, y in itertools.combinations(kinds, 2):
            if x in none or y in none:
                continue
            bad.append(
                (
                    '%s == %s == 0' % (x, y),
                    f_and([
                        f_lin(-P(x)), f_lin(P(x)), f_lin(-P(y)), f_lin(P(y)),
                    ]),
                )
            )
    return bad, f_not(f_or([f for _, f in bad])) if bad else ('T',)


# ------------------------------------------------------------- evaluation
class Unknown(Exception):
    pass


def ev_atom(a, env):
    if a in env:
        return env[a]
    h = a[0]
    if h in ('max', 'min'):
        return (max if h == 'max' else min)(ev_lin(x, env) for x in a[1])
    if h == '*':
        r = 1
        for b in a[1]:
            r *= ev_atom(b, env)
        return r
    if h == '//' and isinstance(a[1], Lin):
        d = ev_lin(a[2], env)
        if d == 0:
            raise Unknown
        return ev_lin(a[1], env) // d
    if h == '%' and isinstance(a[1], Lin):
        d = ev_lin(a[2], env)
        if d == 0:
            raise Unknown
        return ev_lin(a[1], env) % d
    raise Unknown


def ev_lin(l, env):
    return l.k + sum(c * ev_atom(a, env) for a, c in l.c.items())


def ev_formula(f, env):
    """True / False / None (unknown)."""
    h = f[0]
    if h in 'TF':
        return h == 'T'
    if h == 'lin':
        try:
            return ev_lin(f[1], env) >= 0
        except Unknown:
            return None
    if h in ('and', 'or'):
        rs = [ev_formula(g, env) for g in f[1]]
        z = h == 'or'
        if z in rs:
            return z
        return None if None in rs else not z
    return None


def possible(st, env):
    """Can the state hold for these parameters (over-approximation)?"""
    for l in st.lins:
        try:
            if ev_lin(l, env) < 0:
                return False
        except Unknown:
            pass
    return all(ev_formula(f, env) is not False for f in st.disj)


def instances(name, none):
    """Parameter valuations to look for counterexamples at."""
    pairs = spec.SIZES[name]
    if not pairs:
        return
    vals = []
    for lo, hi, floor in pairs:
        v = []
        lows = sorted({-2, -1, 0, 1, floor - 1, floor, floor + 1, floor + 3})
        highs = (
            [None]
            if hi in none
            else sorted(
                {-1, 0, 1, 2, floor - 1, floor, floor + 1, floor + 2,
                 floor + 5}
            )
        )
        for x in lows:
            for y in highs:
                v.append((x, y))
        vals.append(v)
    bases = []
    for d, w in ((0, 0), (0, 1), (1, 3), (2, 2)):
        bases.append([
            (floor + d, None if hi in none else floor + d + w)
            for lo, hi, floor in pairs
        ])
    if name == 'mixes':
        b = list(bases[2])
        for i in range(3):
            c = list(b)
            c[i] = (0, None if pairs[i][1] in none else 0)
            bases.append(c)

    def env(asg):
        e = {}
        for (lo, hi, _), (x, y) in zip(pairs, asg):
            e[('p', lo)] = x
            if y is not None:
                e[('p', hi)] = y
        return e

    seen = set()
    for b in bases:
        for i in range(len(pairs)):
            for v in vals[i]:
                c = list(b)
                c[i] = v
                k = tuple(c)
                if k not in seen:
                    seen.add(k)
                    yield env(c)
    b = bases[1]
    for i, j in itertools.combinations(range(len(pairs)), 2):
        for v in vals[i][::2]:
            for w in vals[j][::3]:
                c = list(b)
                c[i], c[j] = v, w
                k = tuple(c)
                if k not in seen:
                    seen.add(k)
                    yield env(c)


def show(env, none):
    return ', '.join(
        ['%s=%d' % (k[1], v) for k, v in env.items()]
        + ['%s=None' % n for n in none]
    )


def exc_name(e):
    if isinstance(e, LibObj) and e.kind == 'exc' and e.data:
        c = e.data[0]
        if isinstance(c, Lib):
            return c.path.rpartition('.')[2]
    return None


def outcomes(I, name, none, **kw):
    outs, raised, events = build(I, name, none, **kw)
    asserts = [e for e in events if e.kind == 'assertfail']
    return outs, raised, asserts, events


def task_validation(root, name, none):
    """C01: ValueError exactly for the documented invalid arguments."""
    I = engine(root)
    fn, _ = signature(I, name)
    if fn is None:
        raise LookupError(name)
    outs, raised, asserts, events = outcomes(I, name, none)
    bad, valid = clauses(name, none)
    res = []
    where = I.site(fn.node)
    label = '%s(%s)' % (name, ', '.join('%s=None' % n for n in none))
    ve = [(s, n) for s, e, n in raised if exc_name(e) == 'ValueError']
    other = [(s, e, n) for s, e, n in raised if exc_name(e) != 'ValueError']

    def add(ok, text, at=None, detail=''):
        res.append(
            {'ok': ok, 'where': at or where, 'obligation': '%s: %s' % (
                label, text), 'detail': detail}
        )

    # every invalid clause is rejected: no normal outcome meets it
    failed = []
    for text, f in bad:
        ok = all(unsat(s, [f]) for s, _ in outs)
        if ok:
            add(True, 'no normal return when ' + text)
        else:
            failed.append(text)
    # nothing valid is rejected
    for s, n in ve:
        if unsat(s, [valid]):
            add(True, 'rejection at %s only for invalid sizes' % I.site(n),
                I.site(n))
        else:
            failed.append(('raise', I.site(n)))
    for s, e, n in other:
        if unsat(s, [valid]):
            add(True, 'no %s for valid sizes' % exc_name(e), I.site(n))
        else:
            failed.append(('raise', I.site(n)))
    if failed or not outs or asserts:
        wit = None
        for env in instances(name, none):
            isbad = [t for t, f in bad if ev_formula(f, env) is True]
            normal = [s for s, _ in outs if possible(s, env)]
            rej = [(s, n) for s, n in ve if possible(s, env)]
            if isbad and not rej:
                wit = (
                    'sizes %s are invalid (%s) but no path raises ValueError'
                    % (show(env, none), isbad[0]),
                    where,
                )
                break
            if not isbad and not normal:
                at = [I.site(n) for _, n in rej]
                at += [I.site(n) for s, _, n in other if possible(s, env)]
                at += [e.site for e in asserts if possible(e.st, env)]
                wit = (
                    'sizes %s are valid but every path fails (%s)'
                    % (show(env, none), ', '.join(at) or 'no outcome'),
                    at[0] if at else where,
                )
                break
        if wit:
            add(False, 'rejects exactly the invalid sizes', wit[1], wit[0])
        else:
            for t in failed:
                add(None, 'not decided: %s' % (t,))
    return res


def warn_sets(s):
    return s.ghost.get('warns') or frozenset([()])


HW = 'hypothesis.errors.HypothesisWarning'


def task_warnings(root, name, none, names=False):
    """C02 (names=False): one HypothesisWarning per sub-floor minimum and
    none otherwise; C23 (names=True): the texts name the parameter."""
    I = engine(root)
    fn, _ = signature(I, name)
    if fn is None:
        raise LookupError(name)
    outs, raised, asserts, events = outcomes(I, name, none, track=True)
    where = I.site(fn.node)
    label = '%s(%s)' % (name, ', '.join('%s=None' % n for n in none))
    res = []
    bad, valid = clauses(name, none)
    pairs = spec.SIZES[name]

    def add(ok, text, at=None, detail=''):
        res.append(
            {'ok': ok, 'where': at or where, 'obligation': '%s: %s' % (
                label, text), 'detail': detail}
        )

    def agrees(w, low):
        if any(c is None for c, _ in w):
            return None
        hw = [t for c, t in w if c == HW]
        if not names:
            return len(hw) == len(low) and len(hw) == len(w)
        if any(t is None for t in hw):
            return None
        used = set()
        for n in low:
            m = [i for i, t in enumerate(hw) if mentions(t, n)]
            if len(m) != 1:
                return False if len(hw) == len(low) else None
            used.add(m[0])
        return True

    undecided = []
    n_ok = 0
    for s, v in outs:
        def walk(st, i, low):
            nonlocal n_ok
            if i == len(pairs):
                for w in warn_sets(st):
                    r = agrees(w, low)
                    if r:
                        n_ok += 1
                    else:
                        undecided.append((st, low, w))
                return
            lo, hi, floor = pairs[i]
            f = f_lin(L(floor - 1) - P(lo))
            for g, ext in ((f, [lo]), (f_not(f), [])):
                if not unsat(st, [g, valid]):
                    t = st.copy()
                    if t.assume(g):
                        walk(t, i + 1, low + ext)

        walk(s, 0, [])
    if n_ok:
        add(True, '%d path classes emit exactly the promised warnings' % n_ok)
    if undecided:
        wit = None
        for env in instances(name, none):
            if any(ev_formula(f, env) is True for _, f in bad):
                continue
            low = [
                lo for lo, _, floor in pairs if env[('p', lo)] < floor
            ]
            sets = set()
            for s, _ in outs:
                if possible(s, env):
                    sets |= warn_sets(s)
            if not sets:
                continue
            if all(agrees(w, low) is False for w in sets):
                w = sorted(sets, key=len)[0]
                wit = (
                    'sizes %s: expected %s, every path warns %s'
                    % (
                        show(env, none),
                        'one HypothesisWarning each for ' + ', '.join(low)
                        if low
                        else 'no warning',
                        [t for _, t in w] or 'nothing',
                    )
                )
                break
        at = next((e.site for e in events if e.kind == 'warn'), where)
        if wit:
            add(False, 'one warning per sub-floor minimum', at, wit)
        else:
            add(None, 'not decided on %d path classes' % len(undecided))
    if names:
        for s, e, n in raised:
            if exc_name(e) != 'ValueError':
                continue
            t = e.data[1] if len(e.data) > 1 else None
            add(*error_names(I, name, none, s, t, n))
    return res


def mentions(text, name):
    """Whole-word occurrence."""
    i = text.find(name)
    while i >= 0:
        a = text[i - 1] if i else ' '
        j = i + len(name)
        b = text[j] if j < len(text) else ' '
        if not (a.isalnum() or a == '_' or b.isalnum() or b == '_'):
            return True
        i = text.find(name, i + 1)
    return False


def error_names(I, name, none, s, t, n):
    from .lib import const_text

    at = I.site(n)
    # which clauses can be at fault here?
    cands = []
    for lo, hi, floor in spec.SIZES[name]:
        fs = []
        if hi not in none:
            fs = [
                f_lin(L(floor - 1) - P(hi)),
                f_lin(P(lo) - P(hi) - 1),
                f_lin(L(-1) - P(lo)),
            ]
        if fs and entails(s, f_or(fs)):
            cands.append((lo, hi))
    if not cands:
        return True, 'message at %s (no single size at fault)' % at, at
    text = const_text(t) if t is not None else None
    if text is None or (text.strip('\0 ') == ''):
        return None, 'message of %s is not constant' % at, at
    if '\0' in text and not any(
        mentions(text, x) for p in spec.SIZES[name] for x in p[:2]
    ):
        return None, 'message of %s is not fully known' % at, at
    if any(mentions(text, lo) or mentions(text, hi) for lo, hi in cands):
        return True, 'message at %s names the parameter' % at, at
    return (
        False,
        'the ValueError names the offending parameter',
        at,
        'the sizes at fault are %s but the text is %r'
        % (cands, text),
    )


def task_defaults(root, name):
    """C02: omitted sizes never warn nor fail."""
    I = engine(root)
    fn, names = signature(I, name)
    if fn is None:
        raise LookupError(name)
    drop = [x for p in spec.SIZES[name] for x in p[:2]]
    outs, raised, asserts, events = outcomes(
        I, name, (), omit=drop, track=True
    )
    where = I.site(fn.node)
    res = []
    ws = {w for s, _ in outs for w in warn_sets(s)}
    lab = '%s() with default sizes' % name
    if not outs:
        res.append({
            'ok': False, 'where': where,
            'obligation': lab + ': returns a strategy',
            'detail': 'no normal outcome: '
            + ', '.join(I.site(n) for _, _, n in raised)})
    elif ws == {()} and not raised:
        res.append({'ok': True, 'where': where,
                    'obligation': lab + ': no warning, no error',
                    'detail': ''})
    elif () not in ws:
        res.append({'ok': False, 'where': where,
                    'obligation': lab + ': no warning',
                    'detail': 'every path warns: %r' % sorted(ws)[:1]})
    else:
        res.append({'ok': None, 'where': where,
                    'obligation': lab + ': no warning, no error',
                    'detail': ''})
    return res
