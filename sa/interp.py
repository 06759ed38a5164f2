"""Abstract interpreter for the hypothesis_geometry package.

Walks the syntax trees of the repository's modules with the abstract values
of values.py and the relational facts of state.py.  Nothing of the repository
is imported or executed.
"""
import ast
import builtins as _pybuiltins
import os
import sys

from . import heap as H
from .join import Joiner, gc, prune, reachable, refs_in, seq_elems, seq_sum, st_subst, sum_lin
from .state import (
    CHEAP,
    DOMAINS,
    EXTRA_AXIOMS,
    F,
    POSDIV,
    SORTED,
    State,
    T,
    UNIQUE,
    entails,
    eq,
    f_and,
    f_atoms,
    f_eq,
    f_interesting,
    f_lin,
    f_not,
    f_or,
    f_subst,
    ge,
    truth,
    unsat,
)
from .terms import (
    A,
    L,
    Lin,
    ONE,
    ZERO,
    mk_extreme,
    mk_floordiv,
    mul,
    nested_atoms,
    subst_lin,
    subst_term,
)
from .values import *
from .values import V, _counter
from .cheap import call_cheap
from .isolate import call_isolated, simple_args
from .weak import freshen, open_span, weaken, wjoin

sys.setrecursionlimit(20000)

PKG = 'hypothesis_geometry'


class Undecided(Exception):
    """The analysis met a construct it has no transfer function for."""


class FInfo:
    __slots__ = ('parent', 'mod', 'locals', 'node', 'globals', 'nonlocals')

    def __init__(self, parent, mod, locals_, node, globals_, nonlocals):
        self.parent, self.mod, self.locals = parent, mod, locals_
        self.node, self.globals, self.nonlocals = node, globals_, nonlocals


_scope_cache = {}


def scope_of(node):
    """(assigned names, global names, nonlocal names) of a function body."""
    r = _scope_cache.get(id(node))
    if r is not None:
        return r[1]
    names, globs, nonl = set(), set(), set()

    def target(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(
                n.ctx, (ast.Store, ast.Del)
            ):
                names.add(n.id)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            names.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(
            n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
        ):
            for sub in ast.walk(n):
                if isinstance(sub, ast.NamedExpr):
                    names.add(sub.target.id)
            return
        if isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(
            n.ctx, (ast.Store, ast.Del)
        ):
            names.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        visit(s)
    a = getattr(node, 'args', None)
    if a is not None:
        for p in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(p.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
    r = (names - globs - nonl, globs, nonl)
    _scope_cache[id(node)] = (node, r)
    return r


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    r = getattr(node, '_isgen', None)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(
                n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)
            ):
                continue
            stack.extend(ast.iter_child_nodes(n))
        node._isgen = r
    return r


def has_loop(stmts):
    for t in stmts:
        for n in ast.walk(t):
            if isinstance(n, (ast.For, ast.While)):
                return True
    return False


def loop_weight(x, defs, memo):
    """Depth of loop nesting, through calls resolved by name."""
    if isinstance(x, list):
        return max((loop_weight(y, defs, memo) for y in x), default=0)
    if isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
        return 0
    r = 0
    for c in ast.iter_child_nodes(x):
        r = max(r, loop_weight(c, defs, memo))
    if isinstance(x, ast.Call):
        f = x.func
        name = (
            f.id
            if isinstance(f, ast.Name)
            else f.attr if isinstance(f, ast.Attribute) else None
        )
        for n in defs.get(name, ()):
            if id(n) not in memo:
                memo[id(n)] = 0
                memo[id(n)] = loop_weight(n.body, defs, memo)
            r = max(r, memo[id(n)])
    return r + isinstance(
        x,
        (
            ast.For, ast.While, ast.ListComp, ast.SetComp,
            ast.GeneratorExp, ast.DictComp,
        ),
    )


def has_closure(node):
    r = getattr(node, '_hasclo', None)
    if r is None:
        r = any(
            isinstance(
                n,
                (
                    ast.FunctionDef,
                    ast.Lambda,
                ),
            )
            and n is not node
            for n in ast.walk(node)
        )
        node._hasclo = r
    return r


def param_delta(a, joined):
    """Facts of a state about parameters only that a join gave up."""
    return [
        l
        for l in a.lins
        if l not in joined.lins
        and all(x[0] == 'p' for x in l.c)
        and not unsat_not(joined, l)
    ]


def unsat_not(st, l):
    return unsat(st, [f_lin(-l - 1)])


class Event:
    __slots__ = ('kind', 'site', 'data', 'st', 'stack')

    def __init__(self, kind, site, data, st, stack):
        self.kind, self.site, self.data, self.st = kind, site, data, st
        self.stack = stack


class Interp:
    from .ops import (
        binop,
        compare,
        sc_cmp,
        to_formula,
        branch,
        contains,
        unary,
        identity,
        lex,
        geo_eq,
        posdiv,
        posdiv_nonneg,
    )
    from .loops import loop_parts_fn
    from .seqs import (
        rewrap,
        join_elem,
        alloc,
        alloc_list,
        as_seq,
        copy_seq,
        elem_at,
        extend_seq,
        get_item,
        mk_span,
        mutate,
        part_choices,
        seq_len,
        set_seq,
        slice_seq,
        to_iter,
        span_fact_sum,
        weak_elem,
        reverse_seq,
        sorted_seq,
    )
    from .lib import (
        call_lib,
        call_meth,
        call_ctx,
        lib_attr,
        geo_attr,
        mk_geo,
        draw,
        draw_join,
        leaf_scalar,
        call_composed,
        to_ints,
        seal,
    )

    def __init__(self, root):
        self.root = root
        self.events = []
        self.quiet = 0
        self.catch = []
        self.stack = []
        self.joined_refs = {}
        self.cheap_memo = {}
        self.temps = []
        self.finfo = {}
        self.fids = {}
        self.parents = {}
        self.mods = {}
        self.trees = {}
        self.loading = []
        self.phase = 0
        self.base = State()
        self.analysed = set()
        self.call_sites = set()
        self.depth = 0
        self.nest = 0
        self.hidden = []
        self.defs = {}
        self.weights = {}
        self.yields = []
        self.loop_ids = {}
        self.seq_reg = {}
        self.drawing = []
        self.files = {}
        self.homes = {}
        self.bases = {}
        self.limit_factory = 40
        self.limit_draw = 3
        self.steps = 0

    # ------------------------------------------------------------- events
    def site(self, node, mod=None):
        if isinstance(node, str) or node is None:
            return node
        home = self.homes.get(id(node))
        if home is not None:
            m, fn = home
        else:
            fn, m = '', mod
            if self.stack:
                fi = self.finfo.get(self.stack[-1])
                if fi is not None:
                    m = m or fi.mod
                    fn = getattr(fi.node, 'name', '<lambda>')
        return '%s:%s:%s' % (
            self.relfile(m),
            fn or '<module>',
            getattr(node, 'lineno', 0),
        )

    def index_homes(self, tree, mod):
        todo = [(tree, '')]
        while todo:
            n, fn = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fn = n.name
            self.homes[id(n)] = (mod, fn)
            for c in ast.iter_child_nodes(n):
                todo.append((c, fn))

    def relfile(self, mod):
        p = self.files.get(mod)
        return os.path.relpath(p, self.root) if p else str(mod)

    def event(self, kind, node, st, **data):
        if self.quiet:
            return
        trace = tuple(
            getattr(self.finfo[f].node, 'name', '<lambda>')
            for f in self.stack
            if f in self.finfo
        )
        self.events.append(
            Event(kind, self.site(node), data, st.copy(), trace)
        )

    def undecided(self, node, why):
        raise Undecided('%s: %s' % (self.site(node), why))

    # ------------------------------------------------------------ modules
    def mod_file(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            f = os.path.join(p, '__init__.py')
            return f
        return p + '.py'

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.mod_file(name)
        if not os.path.exists(path):
            return None
        fid = 'M:' + name
        self.mods[name] = fid
        self.files[name] = path
        with open(path) as f:
            tree = ast.parse(f.read(), path)
        self.trees[name] = tree
        self.index_homes(tree, name)
        locals_, g, n = scope_of(tree)
        self.finfo[fid] = FInfo(None, name, locals_, tree, g, n)
        self.parents[fid] = None
        st = self.base
        st.frames[fid] = {}
        ph, self.phase = self.phase, 0
        self.stack.append(fid)
        self.catch.append([])
        outs = self.exec_block(tree.body, st, fid)
        self.catch.pop()
        self.stack.pop()
        self.phase = ph
        outs = [o for o in outs if o[0] is None]
        if not outs:
            raise Undecided('module %s does not complete' % name)
        self.base = outs[0][1]
        if name in self.mods and '.' in name:
            parent, _, leaf = name.rpartition('.')
            if parent in self.mods:
                self.base.frames[self.mods[parent]].setdefault(
                    leaf, Mod(name)
                )
        return fid

    def new_state(self):
        s = self.base.copy()
        return s

    # --------------------------------------------------------------- names
    def lookup(self, name, st, fid):
        f = fid
        fi = self.finfo[f]
        if name in fi.globals:
            f = self.mods[fi.mod]
        first = True
        while f is not None:
            fi = self.finfo[f]
            if first or not isinstance(fi.node, ast.ClassDef):
                fr = st.frames.get(f)
                if fr is None and str(f).startswith('M:'):
                    fr = self.base.frames.get(f)
                if fr is not None and name in fr:
                    return f, fr[name]
            first = False
            f = fi.parent if fi.parent is not None else (
                self.mods[fi.mod]
                if f != self.mods[fi.mod]
                else None
            )
        if hasattr(_pybuiltins, name):
            return None, Lib('builtins.' + name)
        return None, None

    def bind(self, name, v, st, fid, node=None):
        fi = self.finfo[fid]
        f = fid
        if name in fi.globals:
            f = self.mods[fi.mod]
        elif name in fi.nonlocals:
            p = fi.parent
            while p is not None and name not in st.frames.get(p, ()):
                p = self.finfo[p].parent
            if p is not None:
                f = p
        if str(f).startswith('M:') and self.phase > 0:
            self.event('mutate', node, st, what='module variable ' + name,
                       phase=0, now=self.phase)
        fr = st.frames.get(f)
        if fr is None:
            fr = st.frames[f] = dict(self.base.frames.get(f, {}))
        fr[name] = v

    # --------------------------------------------------------- expressions
    def ev(self, e, st, fid):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            self.undecided(e, 'expression ' + type(e).__name__)
        self.steps += 1
        return m(e, st, fid)

    def ev_many(self, es, st, fid):
        """Evaluate expressions left to right: [(state, [values])]."""
        outs = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in outs:
                mark = len(self.temps)
                self.temps.extend(vs)
                for s2, v in self.ev(e, s, fid):
                    nxt.append((s2, vs + [v]))
                del self.temps[mark:]
            outs = nxt
        return outs

    def ev_Constant(self, e, st, fid):
        v = e.value
        if isinstance(v, bool) or not isinstance(v, int):
            return [(st, Const(v))]
        return [(st, I(v))]

    def ev_Name(self, e, st, fid):
        f, v = self.lookup(e.id, st, fid)
        if v is None:
            # unbound: an exception on this path
            self.raise_(st, Lib('builtins.NameError'), e)
            return []
        if isinstance(v, Un) and f is not None:
            outs = []
            vs = v.vs
            for i, w in enumerate(vs):
                s = st if i == len(vs) - 1 else st.copy()
                fr = s.frames.get(f)
                if fr is not None:
                    fr[e.id] = w
                outs.append((s, w))
            return outs
        return [(st, v)]

    def ev_NamedExpr(self, e, st, fid):
        out = []
        for s, v in self.ev(e.value, st, fid):
            self.bind(e.target.id, v, s, fid, e)
            out.append((s, v))
        return out

    def ev_Tuple(self, e, st, fid):
        return self.build_seq(e, 'tuple', st, fid)

    def ev_List(self, e, st, fid):
        out = []
        for s, v in self.build_seq(e, 'list', st, fid):
            out.append((s, self.alloc(s, 'list', v, e)))
        return out

    def ev_Set(self, e, st, fid):
        out = []
        for s, v in self.build_seq(e, 'set', st, fid):
            out.append((s, self.alloc(s, 'set', v, e)))
        return out

    def build_seq(self, e, kind, st, fid):
        outs = []
        flat = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for s, vs in self.ev_many(flat, st, fid):
            cur = [(s, ())]
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    nxt = []
                    for s1, parts in cur:
                        for s2, q in self.as_seq(v, s1, x):
                            if q.perm:
                                q = self.weak_elem(q)
                            nxt.append((s2, parts + q.parts))
                    cur = nxt
                else:
                    cur = [(s1, p + (Item(v),)) for s1, p in cur]
            for s1, parts in cur:
                src = None
                if len(e.elts) == 1 and isinstance(e.elts[0], ast.Starred):
                    for s2, q in self.as_seq(vs[0], s1, e):
                        src = q
                if src is not None and not src.perm:
                    outs.append(
                        (s1, src.replace(kind=kind))
                    )
                else:
                    outs.append(
                        (
                            s1,
                            Seq(
                                kind,
                                parts,
                                False,
                                frozenset(),
                                fresh_id('q'),
                                frozenset(),
                                self.site(e),
                            ),
                        )
                    )
        return outs

    def ev_Dict(self, e, st, fid):
        keys = [k for k in e.keys]
        if any(k is None for k in keys):
            self.undecided(e, 'dict unpacking')
        out = []
        for s, vs in self.ev_many(keys + e.values, st, fid):
            n = len(keys)
            items = tuple(zip(vs[:n], vs[n:]))
            hid = fresh_id('h')
            s.heap[hid] = H.HDict(
                items, BOT, BOT, self.phase, False, self.site(e)
            )
            out.append((s, Ref(frozenset([hid]))))
        return out

    def ev_JoinedStr(self, e, st, fid):
        vals = [
            x.value for x in e.values if isinstance(x, ast.FormattedValue)
        ]
        out = []
        for s, vs in self.ev_many(vals, st, fid):
            it = iter(vs)
            parts = []
            for x in e.values:
                if isinstance(x, ast.FormattedValue):
                    parts.append(next(it))
                else:
                    parts.append(Const(x.value))
            if all(
                isinstance(p, Const) and isinstance(p.v, str) for p in parts
            ):
                out.append((s, Const(''.join(p.v for p in parts))))
            else:
                out.append((s, LibObj('str', ('fstr', nid(e)), tuple(parts))))
        return out

    def ev_Attribute(self, e, st, fid):
        out = []
        for s, v in self.ev(e.value, st, fid):
            out.extend(self.getattr(v, e.attr, s, e))
        return out

    def getattr(self, v, name, st, node):
        if isinstance(v, Un):
            out = []
            for w in v.vs:
                out.extend(self.getattr(w, name, st.copy(), node))
            return out
        if isinstance(v, Mod):
            fr = st.frames.get('M:' + v.name) or self.base.frames.get(
                'M:' + v.name
            )
            if fr is not None and name in fr:
                return [(st, fr[name])]
            if self.load(v.name + '.' + name) is not None:
                return [(st, Mod(v.name + '.' + name))]
            self.undecided(node, 'unknown module attribute ' + name)
        if isinstance(v, Lib):
            return [(st, self.lib_attr(v, name))]
        if isinstance(v, Ctx):
            return self.ctx_attr(v, name, st, node)
        if isinstance(v, Geo):
            r = self.geo_attr(v, name, st, node)
            if r is not None:
                return r
        if isinstance(v, Cls):
            return self.cls_attr(v, name, st, node)
        if isinstance(v, Ref):
            objs = [st.heap.get(h) for h in v.ids]
            if any(isinstance(o, H.HObj) for o in objs):
                return self.obj_attr(v, name, st, node)
            return [(st, Meth(v, name))]
        if isinstance(v, Const) and v.v is None:
            self.raise_(st, Lib('builtins.AttributeError'), node)
            return []
        if isinstance(v, Partial):
            if name == 'func':
                return [(st, v.fn)]
            if name == 'args':
                return [(st, self.mk_tuple(v.args))]
        if isinstance(v, (Enum, EnumVar)) and name in ('value', 'name'):
            return [(st, Opq(('enumval', v.cls, name), None))]
        if isinstance(v, Bot):
            return []
        if isinstance(v, Fn) and name in ('__name__', '__qualname__'):
            return [(st, Const(getattr(v.node, 'name', '<lambda>')))]
        return [(st, Meth(v, name))]

    def ctx_attr(self, v, name, st, node):
        if name == 'zero':
            return [
                (st, Sc(A(('zero', v.name)), ARITH, ())),
            ]
        if name == 'empty':
            return self.mk_geo('Empty', v.name, (), st, node)
        return [(st, CtxAttr(v.name, name))]

    def mk_tuple(self, vs, kind='tuple'):
        return Seq(
            kind,
            tuple(Item(v) for v in vs),
            False,
            frozenset(),
            fresh_id('q'),
            frozenset(),
            None,
        )

    # classes ---------------------------------------------------------
    def cls_lookup(self, cls, name):
        """(kind, value node info) for a class attribute, with bases."""
        fr = self.base.frames.get(('C', nid(cls.node)))
        if fr is not None and name in fr:
            return fr[name]
        for b in self.cls_bases(cls):
            r = self.cls_lookup(b, name)
            if r is not None:
                return r
        return None

    def cls_bases(self, cls):
        return [
            b
            for b in self.bases.get(nid(cls.node), ())
            if isinstance(b, Cls)
        ]

    def cls_attr(self, v, name, st, node):
        if name == '__name__':
            return [(st, Const(v.node.name))]
        r = self.cls_lookup(v, name)
        if r is None:
            return [(st, Meth(v, name))]
        if isinstance(r, Composed) and r.op == 'classmethod':
            return [(st, Bound(r.args[0], v))]
        if isinstance(r, Composed) and r.op == 'staticmethod':
            return [(st, r.args[0])]
        return [(st, r)]

    def obj_attr(self, v, name, st, node):
        cls = None
        for h in v.ids:
            o = st.heap.get(h)
            if isinstance(o, H.HObj):
                cls = o.cls
        r = self.cls_lookup(cls, name)
        if isinstance(r, Composed):
            if r.op == 'property':
                return self.call(r.args[0], [v], {}, st, node)
            if r.op == 'classmethod':
                return [(st, Bound(r.args[0], cls))]
            if r.op == 'staticmethod':
                return [(st, r.args[0])]
        if isinstance(r, Fn):
            return [(st, Bound(r, v))]
        acc = None
        j = Joiner(st, st)
        for h in v.ids:
            o = st.heap.get(h)
            if not isinstance(o, H.HObj):
                continue
            x = o.get(name)
            if x is None:
                continue
            if o.summary or len(v.ids) > 1:
                x = weaken(x, st)
            acc = x if acc is None else wjoin(acc, x)
        if acc is not None:
            acc = freshen(acc, st.ictx)
        if acc is None:
            if r is not None:
                return [(st, r)]
            if name.startswith('__'):
                return [(st, Meth(v, name))]
            # a field that no reachable path has written yet
            return []
        return [(st, acc)]

    def join_vals(self, x, y):
        """Plain value join without facts (heap summaries)."""
        if x == y:
            return x
        s = State()
        j = Joiner(s, s)
        return j.join(x, y)

    def setattr(self, v, name, w, st, node):
        if isinstance(v, Ref):
            for h in v.ids:
                o = st.heap.get(h)
                if not isinstance(o, H.HObj):
                    self.event(
                        'mutate', node, st, what='attribute ' + name,
                        phase=getattr(o, 'phase', 0), now=self.phase,
                    )
                    continue
                self.check_mut(o, node, st)
                old = o.get(name)
                if not o.summary and len(v.ids) == 1:
                    nv = w
                else:
                    nv = weaken(w, st)
                    if old is not None:
                        nv = wjoin(weaken(old, st), nv)
                st.heap[h] = o.with_field(name, nv)
            return
        if isinstance(v, (Geo, Ctx, Strat)):
            self.event(
                'mutate', node, st, what='attribute %s of %s' % (
                    name, getattr(v, 'kind', type(v).__name__)
                ), phase=0, now=self.phase,
            )
            return
        if isinstance(v, (Cls, Mod, Lib, Fn)):
            self.event(
                'mutate', node, st, what='attribute ' + name, phase=0,
                now=self.phase,
            )
            return
        # opaque receiver: no effect on tracked state

    def check_mut(self, o, node, st):
        ph = getattr(o, 'phase', self.phase)
        if ph < self.phase:
            self.event(
                'mutate', node, st,
                what='object allocated at %s' % getattr(o, 'site', None),
                phase=ph, now=self.phase,
            )

    # operators ---------------------------------------------------------
    def ev_BinOp(self, e, st, fid):
        out = []
        for s, (a, b) in self.ev_many([e.left, e.right], st, fid):
            out.extend(self.binop(type(e.op).__name__, a, b, s, e))
        return out

    def ev_UnaryOp(self, e, st, fid):
        out = []
        for s, v in self.ev(e.operand, st, fid):
            out.extend(self.unary(type(e.op).__name__, v, s, e))
        return out

    def ev_BoolOp(self, e, st, fid):
        return self.boolop(e, e.values, isinstance(e.op, ast.And), st, fid)

    def boolop(self, e, vals, conj, st, fid):
        out = []
        for s, v in self.ev(vals[0], st, fid):
            if len(vals) == 1:
                out.append((s, v))
                continue
            f = self.to_formula(v, s)
            if f is not None:
                t = truth(s, f)
                if t is not None:
                    if t is conj:
                        out.extend(self.boolop(e, vals[1:], conj, s, fid))
                    else:
                        out.append((s, v))
                    continue
            boolish = isinstance(v, Bool) or (
                isinstance(v, Const) and isinstance(v.v, bool)
            )
            if f is not None and boolish:
                base = s.copy()
                s2 = s.copy()
                if not s2.assume(f if conj else f_not(f)):
                    out.append((s, v))
                    continue
                mark = s2.copy()
                nev = len(self.events)
                rest = self.boolop(e, vals[1:], conj, s2, fid)
                g = self.pure_formula(mark, rest)
                if g is not None:
                    h = f_and([f, g]) if conj else f_or(
                        [f, f_and([f_not(f), g])]
                    )
                    h = f_and([f, g]) if conj else f_or([f, g])
                    out.append(
                        (
                            base,
                            TRUE if h == T else FALSE if h == F else Bool(h),
                        )
                    )
                    continue
                # impure: partition
                s3 = base
                if s3.assume(f_not(f) if conj else f):
                    out.append((s3, FALSE if conj else TRUE))
                out.extend(rest)
                continue
            for s2, b in self.branch(s, v, e):
                if b is conj:
                    out.extend(self.boolop(e, vals[1:], conj, s2, fid))
                else:
                    out.append((s2, v))
        return out

    def delta(self, a, b):
        """Facts of b that a lacks, as a formula."""
        fs = [('lin', l) for l in b.lins if l not in a.lins]
        for k, v in b.lits.items():
            if a.lits.get(k) is not v:
                fs.append(('lit' if v else 'nlit', k))
        for k, d in b.doms.items():
            if a.doms.get(k) != d:
                fs.append(('in', k, d))
        fs += [f for f in b.disj if f not in a.disj]
        fs += [f for f in b.exs if f not in a.exs]
        return f_and(fs)

    def pure_formula(self, base, outs):
        alts = []
        for s, v in outs:
            if s.frames != base.frames or s.ghost != base.ghost:
                return None
            for h, o in base.heap.items():
                o2 = s.heap.get(h)
                if o2 is not o and (o2 is None or o2.key() != o.key()):
                    return None
            f = self.to_formula(v, s)
            if f is None or not (
                isinstance(v, Bool)
                or (isinstance(v, Const) and isinstance(v.v, bool))
            ):
                return None
            alts.append(f_and([self.delta(base, s), f]))
        return f_or(alts)

    def ev_Compare(self, e, st, fid):
        out = []
        for s, vs in self.ev_many([e.left] + e.comparators, st, fid):
            cur = [(s, [])]
            for i, op in enumerate(e.ops):
                nxt = []
                for s1, fs in cur:
                    for s2, b in self.compare(
                        type(op).__name__, vs[i], vs[i + 1], s1, e
                    ):
                        nxt.append((s2, fs + [b]))
                cur = nxt
            for s1, bs in cur:
                if len(bs) == 1:
                    out.append((s1, bs[0]))
                    continue
                fs = [self.to_formula(b, s1) for b in bs]
                if any(f is None for f in fs):
                    out.append((s1, Bool(('lit', ('opq', fresh_id('c'))))))
                    continue
                f = f_and(fs)
                out.append(
                    (s1, TRUE if f == T else FALSE if f == F else Bool(f))
                )
        return out

    def ev_IfExp(self, e, st, fid):
        out = []
        for s, b in self.cond(e.test, st, fid):
            out.extend(self.ev(e.body if b else e.orelse, s, fid))
        return self.tidy_values(out)

    def tidy_values(self, outs):
        """Merge outcomes that agree on everything but facts."""
        if len(outs) < 2:
            return outs
        res = []
        for s, v in outs:
            for i, (s2, v2) in enumerate(res):
                if v == v2 and self.same_store(s, s2):
                    res[i] = (self.join_facts(s2, s), v)
                    break
            else:
                res.append((s, v))
        return res

    def same_store(self, a, b):
        if a.frames != b.frames or a.ghost != b.ghost:
            return False
        if a.heap.keys() != b.heap.keys():
            return False
        return all(
            o is b.heap[h] or o.key() == b.heap[h].key()
            for h, o in a.heap.items()
        )

    def join_facts(self, a, b):
        j = Joiner(a, b)
        j.facts()
        s = a.copy()
        s.lins, s.lits, s.doms = j.out.lins, j.out.lits, j.out.doms
        s.disj, s.exs = j.out.disj, j.out.exs
        if self.phase < 2:
            da, db = param_delta(a, s), param_delta(b, s)
            if 0 < len(da) <= 4 and 0 < len(db) <= 4:
                s.assume(f_or([
                    f_and([f_lin(l) for l in da]),
                    f_and([f_lin(l) for l in db]),
                ]))
        return s

    def cond(self, test, st, fid):
        """Evaluate a condition: [(state, bool)] with refined states."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return [(s, not b) for s, b in self.cond(test.operand, st, fid)]
        if isinstance(test, ast.BoolOp):
            conj = isinstance(test.op, ast.And)
            outs = self.boolop(test, test.values, conj, st, fid)
        else:
            outs = self.ev(test, st, fid)
        res = []
        for s, v in outs:
            res.extend(self.branch(s, v, test))
        return res

    def ev_Lambda(self, e, st, fid):
        return self.make_fn(e, st, fid)

    def make_fn(self, node, st, fid, name=None):
        """Function value with evaluated defaults."""
        a = node.args
        ds = list(a.defaults) + [d for d in a.kw_defaults if d is not None]
        out = []
        for s, vs in self.ev_many(ds, st, fid):
            extra = tuple(vs) if vs else None
            out.append((s, Fn(node, fid, self.finfo[fid].mod, None, extra)))
        return out

    def ev_Starred(self, e, st, fid):
        self.undecided(e, 'starred expression')

    def ev_Yield(self, e, st, fid):
        outs = (
            self.ev(e.value, st, fid) if e.value is not None else [(st, NONE)]
        )
        for s, v in outs:
            self.append_to(s.frames[self.gen_fid(fid)]['$yield'], v, s, e)
        return [(s, NONE) for s, _ in outs]

    def gen_fid(self, fid):
        f = fid
        while f is not None:
            if isinstance(self.finfo[f].node, ast.FunctionDef):
                return f
            f = self.finfo[f].parent
        return fid

    def ev_YieldFrom(self, e, st, fid):
        out = []
        for s, v in self.ev(e.value, st, fid):
            for s2, q in self.as_seq(v, s, e):
                self.extend_seq(s2.frames[self.gen_fid(fid)]['$yield'], q, s2, e)
                out.append((s2, NONE))
        return out

    def append_to(self, ref, v, st, node):
        self.mutate(
            ref,
            lambda q: q.replace(
                parts=q.parts + (Item(v),),
                sid=fresh_id('q'),
                tags=frozenset(),
                subs=frozenset(),
            ),
            st,
            node,
        )

    def ev_Await(self, e, st, fid):
        self.undecided(e, 'await')

    # subscripts
    def ev_Subscript(self, e, st, fid):
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            ex = [x for x in (sl.lower, sl.upper, sl.step) if x is not None]
            out = []
            for s, vs in self.ev_many([e.value] + ex, st, fid):
                it = iter(vs[1:])
                lo = next(it) if sl.lower is not None else NONE
                hi = next(it) if sl.upper is not None else NONE
                step = next(it) if sl.step is not None else NONE
                out.extend(self.slice_seq(vs[0], lo, hi, step, s, e))
            return out
        out = []
        for s, (v, i) in self.ev_many([e.value, e.slice], st, fid):
            out.extend(self.get_item(v, i, s, e))
        return out

    def ev_Slice(self, e, st, fid):
        ex = [x for x in (e.lower, e.upper, e.step) if x is not None]
        out = []
        for s, vs in self.ev_many(ex, st, fid):
            out.append((s, Composed('slice', tuple(vs))))
        return out

    # comprehensions
    def ev_ListComp(self, e, st, fid):
        return self.comp(e, e.elt, 'list', st, fid)

    def ev_SetComp(self, e, st, fid):
        return self.comp(e, e.elt, 'set', st, fid)

    def ev_GeneratorExp(self, e, st, fid):
        return self.comp(e, e.elt, 'iter', st, fid)

    def ev_DictComp(self, e, st, fid):
        pair = ast.copy_location(
            ast.Tuple([e.key, e.value], ast.Load()), e
        )
        pair = getattr(e, '_pair', None) or pair
        e._pair = pair
        out = []
        for s, r in self.comp(e, pair, 'list', st, fid):
            (h,) = r.ids
            q = s.heap[h].seq
            sk = sv = BOT
            for el in seq_elems(q):
                k, v = [p.v for p in el.parts]
                sk = wjoin(sk, weaken(k, st))
                sv = wjoin(sv, weaken(v, st))
            hid = fresh_id('h')
            s.heap[hid] = H.HDict(
                (), sk, sv, self.phase, False, self.site(e)
            )
            out.append((s, Ref(frozenset([hid]))))
        return out

    def comp(self, e, elt, kind, st, fid):
        cf = self.fid_for(fid, e, e, fid)
        if cf not in self.finfo:
            names = set()
            for g in e.generators:
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        names.add(n.id)
            self.finfo[cf] = FInfo(
                fid, self.finfo[fid].mod, names, e, set(), set()
            )
            self.parents[cf] = fid
        st.frames[cf] = {}
        acc = self.alloc(
            st,
            'set' if kind == 'set' else 'list',
            self.mk_tuple((), 'list').replace(site=self.site(e)),
            e,
        )
        st.frames[cf]['$acc'] = acc
        self.stack.append(cf)

        def run(i, s):
            if i == len(e.generators):
                outs = []
                for s2, v in self.ev(elt, s, cf):
                    self.append_to(s2.frames[cf]['$acc'], v, s2, e)
                    outs.append((None, s2, None))
                return outs
            g = e.generators[i]
            if g.is_async:
                self.undecided(e, 'async comprehension')
            outs = []
            for s1, it in self.ev(g.iter, s, cf if i else fid):

                def body(s2, g=g, i=i):
                    res = []
                    states = [s2]
                    for c in g.ifs:
                        nxt = []
                        for s3 in states:
                            for s4, b in self.cond(c, s3, cf):
                                if b:
                                    nxt.append(s4)
                                else:
                                    res.append((None, s4, None))
                        states = nxt
                    for s3 in states:
                        res.extend(run(i + 1, s3))
                    return res

                outs.extend(
                    self.for_loop(e, g.target, it, body, s1, cf)
                )
            return outs

        outs = run(0, st)
        self.stack.pop()
        res = []
        for ctl, s, v in outs:
            acc = s.frames[cf]['$acc']
            if not has_closure(e):
                s.frames.pop(cf, None)
            else:
                s.frames[cf].pop('$acc', None)
            if kind == 'iter':
                for s2, q in self.as_seq(acc, s, e):
                    for h in acc.ids:
                        s2.heap.pop(h, None)
                    res.append((s2, self.to_iter(q.replace(kind='iter'), s2, e)))
            else:
                res.append((s, acc))
        return self.compact_vals(res, e)

    # ---------------------------------------------------------------- calls
    def ev_Call(self, e, st, fid):
        out = []
        exprs = [e.func]
        exprs += [
            a.value if isinstance(a, ast.Starred) else a for a in e.args
        ]
        exprs += [k.value for k in e.keywords]
        for s, vs in self.ev_many(exprs, st, fid):
            fn = vs[0]
            na = len(e.args)
            args = []
            for a, v in zip(e.args, vs[1:1 + na]):
                args.append(('*', v) if isinstance(a, ast.Starred) else v)
            kw = {}
            dstar = []
            for k, v in zip(e.keywords, vs[1 + na:]):
                if k.arg is None:
                    dstar.append(v)
                else:
                    kw[k.arg] = v
            bad = False
            for v in dstar:
                d = None
                if isinstance(v, Ref) and len(v.ids) == 1:
                    (h,) = v.ids
                    o = s.heap.get(h)
                    if isinstance(o, H.HDict) and isinstance(o.sk, Bot):
                        d = o
                if d is None:
                    self.undecided(e, 'unknown keyword arguments')
                for k, w in d.items:
                    kw[k.v] = w
            mark = len(self.temps)
            self.temps.extend(vs)
            out.extend(self.call(fn, args, kw, s, e, fid))
            del self.temps[mark:]
        return out

    def fid_for(self, caller, node, fnode, parent):
        key = (caller, nid(node), nid(fnode), parent)
        r = self.fids.get(key)
        if r is None:
            r = self.fids[key] = len(self.fids) + 1
            self._keep = getattr(self, '_keep', [])
            self._keep.append((node, fnode))
        return r

    def expand_args(self, args, st, node, want=None):
        """Resolve starred arguments: [(state, [values], rest Seq|None)]."""
        outs = [(st, [])]
        for a in args:
            if not (isinstance(a, tuple) and a and a[0] == '*'):
                outs = [(s, vs + [a]) for s, vs in outs]
                continue
            nxt = []
            for s, vs in outs:
                for s2, q in self.as_seq(a[1], s, node):
                    if q.perm:
                        q = self.weak_elem(q)
                    it = q.items()
                    if it is not None:
                        nxt.append((s2, vs + it))
                        continue
                    need = None
                    if want is not None:
                        need = want - len(vs)
                    if need is None or need < 0:
                        nxt.append((s2, vs + [('*', q)]))
                        continue
                    if not s2.assume(f_eq(q.length(), L(need))):
                        continue
                    cur = [(s2, vs)]
                    for i in range(need):
                        cur = [
                            (s4, w + [x])
                            for s3, w in cur
                            for s4, x in self.elem_at(q, L(i), s3, node)
                        ]
                    nxt.extend(cur)
            outs = nxt
        return outs

    def call(self, fn, args, kw, st, node, fid=None):
        """Call a value: [(state, result)]."""
        self.call_sites.add((self.site(node)))
        if isinstance(fn, Un):
            out = []
            for w in fn.vs:
                out.extend(self.call(w, args, kw, st.copy(), node, fid))
            return out
        if isinstance(fn, Fn):
            return self.call_fn(fn, args, kw, st, node)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.self] + list(args), kw, st, node)
        if isinstance(fn, Partial):
            k = dict(fn.kw)
            k.update(kw)
            return self.call(
                fn.fn, list(fn.args) + list(args), k, st, node
            )
        if isinstance(fn, Cls):
            return self.instantiate(fn, args, kw, st, node)
        if isinstance(fn, Lib):
            out = []
            if fn.path == 'builtins.locals' or fn.path == 'builtins.eval':
                self.undecided(node, fn.path)
            for s, vs in self.expand_args(args, st, node):
                out.extend(self.call_lib(fn, vs, kw, s, node))
            return out
        if isinstance(fn, Meth):
            out = []
            for s, vs in self.expand_args(args, st, node):
                out.extend(self.call_meth(fn, vs, kw, s, node))
            return out
        if isinstance(fn, CtxAttr):
            out = []
            for s, vs in self.expand_args(args, st, node):
                out.extend(self.call_ctx(fn, vs, kw, s, node))
            return out
        if isinstance(fn, Composed):
            out = []
            for s, vs in self.expand_args(args, st, node):
                out.extend(self.call_composed(fn, vs, kw, s, node))
            return out
        if isinstance(fn, Bot):
            return []
        if isinstance(fn, Ref):
            o = st.heap.get(next(iter(fn.ids)))
            if isinstance(o, H.HObj):
                r = self.cls_lookup(o.cls, '__call__')
                if r is not None:
                    return self.call(r, [fn] + list(args), kw, st, node)
        if isinstance(fn, (Opq, LibObj)):
            return self.call_opaque(fn, args, kw, st, node)
        if isinstance(fn, Strat):
            self.undecided(node, 'call of a strategy')
        self.undecided(node, 'call of %r' % (fn,))

    def call_opaque(self, fn, args, kw, st, node):
        if isinstance(fn, LibObj) and fn.kind == 'chooser':
            for s, vs in self.expand_args(args, st, node):
                return self.choose(vs[0], s, node)
        if isinstance(fn, LibObj) and fn.kind == 'draw':
            out = []
            for s, vs in self.expand_args(args, st, node):
                if not isinstance(vs[0], Strat):
                    if isinstance(vs[0], (Bot,)):
                        continue
                    self.undecided(node, 'draw of a non-strategy')
                outs = self.draw(vs[0], s, node)
                out.extend(self.draw_join(outs, node))
            return out
        return [
            (
                st,
                Opq(
                    fresh('opq') + st.ictx,
                    'result of %s' % (getattr(fn, 'why', None) or fn,),
                ),
            )
        ]

    def choose(self, v, st, node):
        """random.choice contract: one of the elements."""
        out = []
        for s, q in self.as_seq(v, st, node):
            it = q.items()
            if it is not None and 0 < len(it) <= 6:
                for i, x in enumerate(it):
                    out.append((s.copy(), x))
                continue
            if 'unordered' in q.tags:
                self.event('unordered', node, s, what='random choice')
            a = fresh('choice') + s.ictx
            s.assume(f_lin(A(a)))
            s.assume(f_lin(q.length() - 1 - A(a)))
            out.extend(self.elem_at(q, A(a), s, node))
        return out

    # repository functions ------------------------------------------------
    def bind_params(self, fn, args, kw, st, node):
        """[(state, frame dict)] binding call arguments to parameters."""
        a = fn.node.args
        pos = a.posonlyargs + a.args
        out = []
        extra = list(fn.extra or ())
        nd = len(a.defaults)
        pos_defaults = dict(
            zip([p.arg for p in pos[len(pos) - nd:]], extra[:nd])
        )
        kwd = {}
        it = iter(extra[nd:])
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                kwd[p.arg] = next(it)
        star = any(isinstance(x, tuple) and x and x[0] == '*' for x in args)
        npos_required = len(
            [p for p in pos if p.arg not in kw]
        )
        for s, vs in self.expand_args(
            args, st, node, None if a.vararg else npos_required
        ):
            fr = {}
            ok = True
            i = 0
            for p in pos:
                if i < len(vs) and not (
                    isinstance(vs[i], tuple) and vs[i][0] == '*'
                ):
                    fr[p.arg] = vs[i]
                    i += 1
                elif i < len(vs):
                    # starred unknown sequence spreading over parameters
                    q = vs[i][1]
                    k = len([1 for x in fr])
                    done = False
                    for s2, x in self.elem_at(
                        q, L(len(fr) - i), s, node
                    ):
                        fr[p.arg] = x
                        done = True
                    ok = ok and done
                elif p.arg in kw and p not in a.posonlyargs:
                    fr[p.arg] = kw[p.arg]
                elif p.arg in pos_defaults:
                    fr[p.arg] = pos_defaults[p.arg]
                else:
                    ok = False
            rest = vs[i:]
            if a.vararg:
                parts = []
                for x in rest:
                    if isinstance(x, tuple) and x[0] == '*':
                        parts.extend(x[1].parts)
                    else:
                        parts.append(Item(x))
                fr[a.vararg.arg] = Seq(
                    'tuple',
                    tuple(parts),
                    False,
                    frozenset(),
                    fresh_id('q'),
                    frozenset(),
                    None,
                )
            elif [x for x in rest if not isinstance(x, tuple)]:
                ok = False
            names = {p.arg for p in pos if p not in a.posonlyargs}
            extra_kw = []
            for p in a.kwonlyargs:
                if p.arg in kw:
                    fr[p.arg] = kw[p.arg]
                elif p.arg in kwd:
                    fr[p.arg] = kwd[p.arg]
                else:
                    ok = False
            for k, v in kw.items():
                if k not in fr:
                    if a.kwarg:
                        extra_kw.append((Const(k), v))
                    else:
                        ok = False
                elif k in [p.arg for p in a.posonlyargs]:
                    ok = False
            if a.kwarg:
                hid = fresh_id('h')
                s.heap[hid] = H.HDict(
                    tuple(extra_kw), BOT, BOT, self.phase, False, None
                )
                fr[a.kwarg.arg] = Ref(frozenset([hid]))
            if not ok:
                self.event('badcall', node, s, fn=fn)
                self.raise_(s, Lib('builtins.TypeError'), node)
                continue
            out.append((s, fr))
        return out

    def on_summary(self, args, kw, st):
        """Does the call work on summarised instances of repo classes?"""
        for v in args + list(kw.values()):
            if isinstance(v, tuple):
                v = v[1]
            if isinstance(v, Cls):
                if not self.is_enum(v) and not self.is_exception(v):
                    return True
                continue
            if not isinstance(v, V):
                continue
            for h in refs_in(v)[0]:
                o = st.heap.get(h)
                if isinstance(o, H.HObj):
                    if o.summary:
                        return True
                elif o is not None:
                    for w in o.values():
                        for h2 in refs_in(w)[0]:
                            o2 = st.heap.get(h2)
                            if isinstance(o2, H.HObj) and o2.summary:
                                return True
        return False

    def call_fn(self, fn, args, kw, st, node):
        if self.phase > 1 and not CHEAP and self.on_summary(
            list(args), kw, st
        ):
            return call_cheap(self, fn, list(args), kw, st, node)
        if CHEAP and self.phase > 1 and self.heavy(fn.node, 2):
            return call_cheap(self, fn, list(args), kw, st, node)
        if (
            not CHEAP
            and self.phase > 1
            and len(st.lins) > 24
            and not isinstance(fn.fid, int)
            and simple_args(args, kw)
            and self.heavy(fn.node, 1)
        ):
            return call_isolated(self, fn, args, kw, st, node)
        if not CHEAP or kw or any(isinstance(a, tuple) for a in args):
            return self.call_fn2(fn, args, kw, st, node)
        # calls without effects are analysed once per argument shape
        parent = fn.fid
        if parent is not None and not (
            isinstance(parent, str)
            or (isinstance(parent, tuple) and parent[0] == 'C')
        ):
            return self.call_fn2(fn, args, kw, st, node)
        key = (fn, tuple(args))
        reach = sorted(
            reachable(st, (), args, self.parents)[0], key=repr
        )
        snap = [(h, st.heap.get(h)) for h in reach]
        hit = self.cheap_memo.get(key)
        if hit is not None and len(hit[0]) == len(snap) and all(
            a[0] == b[0] and a[1] is b[1] for a, b in zip(hit[0], snap)
        ):
            return [(st, freshen(hit[1], st.ictx))]
        ev, ca = len(self.events), len(self.catch[-1]) if self.catch else 0
        before = set(st.heap)
        outs = self.call_fn2(fn, args, kw, st, node)
        if (
            len(outs) == 1
            and len(self.events) == ev
            and (len(self.catch[-1]) if self.catch else 0) == ca
        ):
            s2, v = outs[0]
            if refs_in(v)[0] <= before and all(
                s2.heap.get(h) is o for h, o in snap
            ):
                self.cheap_memo[key] = (snap, weaken(v, s2))
        return outs

    def call_fn2(self, fn, args, kw, st, node):
        self.depth += 1
        if self.depth > 120:
            self.undecided(node, 'call depth')
        self.analysed.add((fn.mod, getattr(fn.node, 'name', '<lambda>'),
                           fn.node.lineno))
        try:
            out = []
            caller = self.stack[-1] if self.stack else None
            for s, fr in self.bind_params(fn, args, kw, st, node):
                f = self.fid_for(caller, node, fn.node, fn.fid)
                if f in self.stack:
                    self.undecided(node, 'recursion')
                if f not in self.finfo:
                    lo, g, n = scope_of(fn.node)
                    self.finfo[f] = FInfo(fn.fid, fn.mod, lo, fn.node, g, n)
                    self.parents[f] = fn.fid
                s.frames[f] = fr
                self.stack.append(f)
                if isinstance(fn.node, ast.Lambda):
                    outs = [
                        ('ret', s2, v)
                        for s2, v in self.ev(fn.node.body, s, f)
                    ]
                else:
                    gen = is_generator(fn.node)
                    if gen:
                        fr['$yield'] = self.alloc(
                            s,
                            'list',
                            self.mk_tuple((), 'list').replace(
                                site=self.site(fn.node)
                            ),
                            fn.node,
                        )
                    outs = self.exec_block(fn.node.body, s, f)
                    if gen:
                        outs = [
                            self.finish_gen(o, f, fn.node) for o in outs
                        ]
                self.stack.pop()
                for ctl, s2, v in outs:
                    if not has_closure(fn.node):
                        s2.frames.pop(f, None)
                    out.append((s2, v if ctl == 'ret' else NONE))
            out = self.compact_vals(out, node)
            for s, v in out:
                if len(s.lins) > 24:
                    if len(out) < 2:
                        gc(
                            s, self.stack, list(self.live_temps()) + [v],
                            self.parents,
                        )
                    prune(s, list(self.live_temps()) + [v])
            return out
        finally:
            self.depth -= 1

    def finish_gen(self, o, f, node):
        ctl, s, v = o
        r = s.frames[f].pop('$yield')
        (h,) = r.ids
        q = s.heap.pop(h).seq
        return ('ret', s, self.to_iter(q.replace(kind='iter'), s, node))

    def compact_vals(self, outs, node):
        if len(outs) < 2:
            return outs
        for s, v in outs:
            gc(s, self.stack, list(self.live_temps()) + [v], self.parents)
        outs = self.tidy_values(outs)
        lim = 3 * (
            self.limit_draw if self.phase > 1 else self.limit_factory
        )
        if CHEAP or len(outs) > lim:
            outs = [self.join_outs(outs)]
        return outs

    def live_temps(self):
        for t in self.temps:
            if isinstance(t, V):
                yield t
            elif isinstance(t, tuple) and t and t[0] == '*':
                yield t[1]

    def join_outs(self, outs):
        """Join a list of (state, value) into one."""
        s, v = outs[0]
        temps = list(self.live_temps())
        for s2, v2 in outs[1:]:
            j = Joiner(s, s2)
            s, vals = j.run(self.stack, [v] + temps, [v2] + temps)
            v = vals[0]
        return s, v

    # classes -------------------------------------------------------------
    def instantiate(self, cls, args, kw, st, node):
        if self.is_enum(cls):
            return [(st, Opq(fresh('enum')))]
        if self.is_exception(cls):
            return [(st, LibObj('exc', ('cls', nid(cls.node)), (cls,)))]
        hid = ('o', cls.mod + '.' + cls.node.name)
        if self.phase < 2 and not st.ictx:
            hid = ('o1', fresh_id(cls.node.name))
            st.heap[hid] = H.HObj(
                cls, (), self.phase, False, self.site(node)
            )
        elif hid not in st.heap:
            st.heap[hid] = H.HObj(
                cls, (), self.phase, True, self.site(node)
            )
        ref = Ref(frozenset([hid]))
        init = self.cls_lookup(cls, '__init__')
        if isinstance(init, Fn):
            return [
                (s, ref)
                for s, _ in self.call(init, [ref] + list(args), kw, st, node)
            ]
        fields = self.dataclass_fields(cls)
        if fields is not None:
            for n, v in zip(fields, args):
                self.setattr(ref, n, v, st, node)
            for n, v in kw.items():
                self.setattr(ref, n, v, st, node)
        return [(st, ref)]

    def dataclass_fields(self, cls):
        return [
            n.target.id
            for n in cls.node.body
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name)
        ]

    def is_enum(self, cls):
        for b in self.bases.get(nid(cls.node), ()):
            if isinstance(b, Lib) and b.path.startswith('enum.'):
                return True
            if isinstance(b, Cls) and self.is_enum(b):
                return True
        return False

    def is_exception(self, cls):
        for b in self.bases.get(nid(cls.node), ()):
            if isinstance(b, Lib) and (
                b.path.endswith('Error')
                or b.path.endswith('Exception')
                or b.path.endswith('Warning')
            ):
                return True
            if isinstance(b, Cls) and self.is_exception(b):
                return True
        return False

    def raise_(self, st, exc, node):
        if self.catch:
            if CHEAP and any(e == exc for _, e, _ in self.catch[-1]):
                return
            self.catch[-1].append((st, exc, node))

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fid):
        """[(ctl, state, value)]; ctl: None | 'ret' | 'brk' | 'cnt'."""
        live = [st]
        done = []
        for s in stmts:
            nxt = []
            for x in live:
                for ctl, s2, v in self.exec(s, x, fid):
                    if ctl is None:
                        nxt.append(s2)
                    else:
                        done.append((ctl, s2, v))
            live = self.compact(nxt, s)
            if not live:
                break
        return done + [(None, s, None) for s in live]

    def compact(self, states, node):
        if len(states) < 2:
            return states
        for s in states:
            gc(s, self.stack, list(self.live_temps()), self.parents)
        res = []
        for s in states:
            for i, s2 in enumerate(res):
                if self.same_store(s, s2):
                    res[i] = self.join_facts(s2, s)
                    break
            else:
                res.append(s)
        lim = self.limit_draw if self.phase > 1 else self.limit_factory
        if self.nest and lim < 9:
            lim = 1
        if CHEAP:
            if len(res) > 1:
                res = [self.join_outs([(s, NONE) for s in res])[0]]
        elif len(res) > lim:
            groups = {}
            for s in res:
                groups.setdefault(self.pkey(s), []).append(s)
            res = []
            for g in groups.values():
                res.append(
                    self.join_outs([(s, NONE) for s in g])[0]
                    if len(g) > 1
                    else g[0]
                )
            if len(res) > 4 * lim:
                res = [self.join_outs([(s, NONE) for s in res])[0]]
        return res

    def pkey(self, st):
        """Trace-partition key: finite-valued variables of the frame."""
        out = []
        for fid in self.stack[-1:]:
            fr = st.frames.get(fid, {})
            for n, v in fr.items():
                if n.startswith('$'):
                    continue
                if isinstance(v, Const) and (
                    v.v is None or isinstance(v.v, bool)
                ):
                    out.append((n, v.v))
                elif isinstance(v, (Fn, Bound)):
                    out.append((n, v))
        for k, v in st.ghost.items():
            if k == 'warns':
                out.append((k, v))
            elif isinstance(k, tuple) and k[0] == 'touch':
                out.append((k, self.touch_key(st, k, v)))
        return frozenset(out)

    def touch_key(self, st, k, v):
        return v if isinstance(v, (bool, str)) else None

    def exec(self, s, st, fid):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            self.undecided(s, 'statement ' + type(s).__name__)
        self.steps += 1
        return m(s, st, fid)

    def x_Expr(self, s, st, fid):
        return [(None, s2, None) for s2, _ in self.ev(s.value, st, fid)]

    def x_Pass(self, s, st, fid):
        return [(None, st, None)]

    def x_Return(self, s, st, fid):
        if s.value is None:
            return [('ret', st, NONE)]
        return [('ret', s2, v) for s2, v in self.ev(s.value, st, fid)]

    def x_Break(self, s, st, fid):
        return [('brk', st, None)]

    def x_Continue(self, s, st, fid):
        return [('cnt', st, None)]

    def x_Global(self, s, st, fid):
        return [(None, st, None)]

    x_Nonlocal = x_Global

    def x_Assign(self, s, st, fid):
        out = []
        for s2, v in self.ev(s.value, st, fid):
            cur = [s2]
            for t in s.targets:
                cur = [y for x in cur for y in self.assign(t, v, x, fid)]
            out.extend((None, x, None) for x in cur)
        return out

    def x_AnnAssign(self, s, st, fid):
        if s.value is None:
            return [(None, st, None)]
        out = []
        for s2, v in self.ev(s.value, st, fid):
            out.extend(
                (None, x, None) for x in self.assign(s.target, v, s2, fid)
            )
        return out

    def x_TypeAlias(self, s, st, fid):
        self.bind(s.name.id, Opq(('alias', nid(s))), st, fid)
        return [(None, st, None)]

    def assign(self, t, v, st, fid):
        """Bind a target: list of states."""
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, fid, t)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t.elts, v, st, fid, t)
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st, fid):
                self.setattr(o, t.attr, v, s, t)
                out.append(s)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, (o, i) in self.ev_many([t.value, t.slice], st, fid):
                self.set_item(o, i, v, s, t)
                out.append(s)
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fid)
        self.undecided(t, 'assignment target')

    def unpack(self, elts, v, st, fid, node):
        if isinstance(v, Un):
            out = []
            for w in v.vs:
                out.extend(self.unpack(elts, w, st.copy(), fid, node))
            return out
        out = []
        stars = [i for i, x in enumerate(elts) if isinstance(x, ast.Starred)]
        for s, q in self.as_seq(v, st, node):
            n = len(elts)
            if not stars:
                ln = q.length()
                if ln.const is not None and ln.const != n:
                    self.raise_(s, Lib('builtins.ValueError'), node)
                    continue
                if ln.const is None and not s.assume(f_eq(ln, L(n))):
                    self.raise_(s, Lib('builtins.ValueError'), node)
                    continue
                cur = [s]
                for i, t in enumerate(elts):
                    nxt = []
                    for s1 in cur:
                        for s2, x in self.elem_at(q, L(i), s1, node):
                            nxt.extend(self.assign(t, x, s2, fid))
                    cur = nxt
                out.extend(cur)
                continue
            k = stars[0]
            after = n - 1 - k
            if not s.assume(f_lin(q.length() - (n - 1))):
                continue
            cur = [s]
            for i, t in enumerate(elts):
                nxt = []
                for s1 in cur:
                    if i < k:
                        xs = self.elem_at(q, L(i), s1, node)
                    elif i > k:
                        xs = self.elem_at(
                            q, q.length() - (n - i), s1, node
                        )
                    else:
                        xs = [
                            (s2, self.alloc(s2, 'list', m, node))
                            for s2, m0 in self.slice_seq(
                                q,
                                I(k),
                                Int(q.length() - after),
                                NONE,
                                s1,
                                node,
                            )
                            for s2, m in self.as_seq(m0, s2, node)
                        ]
                    for s2, x in xs:
                        nxt.extend(self.assign(t, x, s2, fid))
                cur = nxt
            out.extend(cur)
        return out

    def x_AugAssign(self, s, st, fid):
        load = getattr(s, '_load', None)
        if load is None:
            load = ast.parse(ast.unparse(s.target), mode='eval').body
            for n in ast.walk(load):
                n.lineno = s.lineno
                n.col_offset = s.col_offset
            s._load = load
        out = []
        op = type(s.op).__name__
        for s2, (a, b) in self.ev_many([load, s.value], st, fid):
            # in-place semantics for lists and sets
            if isinstance(a, Ref):
                o = s2.heap.get(next(iter(a.ids)))
                if isinstance(o, H.HSeq) and op in ('Add', 'BitOr'):
                    for s3, q in self.as_seq(b, s2, s):
                        self.extend_seq(a, q, s3, s)
                        out.append((None, s3, None))
                    continue
            for s3, v in self.binop(op, a, b, s2, s):
                out.extend(
                    (None, x, None) for x in self.assign(s.target, v, s3, fid)
                )
        return out

    def x_Delete(self, s, st, fid):
        cur = [st]
        for t in s.targets:
            nxt = []
            for x in cur:
                if isinstance(t, ast.Name):
                    x.frames.get(fid, {}).pop(t.id, None)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for s2, (o, i) in self.ev_many(
                        [t.value, t.slice], x, fid
                    ):
                        self.del_item(o, i, s2, t)
                        nxt.append(s2)
                else:
                    nxt.append(x)
            cur = nxt
        return [(None, x, None) for x in cur]

    def set_item(self, o, i, v, st, node):
        if isinstance(o, Ref):
            for h in o.ids:
                ob = st.heap.get(h)
                if ob is None:
                    continue
                self.check_mut(ob, node, st)
                if isinstance(ob, H.HDict):
                    strong = len(o.ids) == 1 and not ob.summary
                    exact = isinstance(i, (Const, Fn)) or (
                        isinstance(i, Int) and i.l.const is not None
                    )
                    if strong and exact and isinstance(ob.sk, Bot):
                        items = tuple(
                            (k, w) for k, w in ob.items if k != i
                        ) + ((i, v),)
                        st.heap[h] = H.HDict(
                            items, ob.sk, ob.sv, ob.phase, ob.summary, ob.site
                        )
                    else:
                        st.heap[h] = H.HDict(
                            ob.items,
                            wjoin(weaken(ob.sk, st), weaken(i, st)),
                            wjoin(weaken(ob.sv, st), weaken(v, st)),
                            ob.phase,
                            ob.summary,
                            ob.site,
                        )
                elif isinstance(ob, H.HSeq):
                    q = ob.seq
                    it = q.items()
                    if (
                        isinstance(i, Int)
                        and i.l.const is not None
                        and it is not None
                        and -len(it) <= i.l.const < len(it)
                        and len(o.ids) == 1
                        and not ob.summary
                    ):
                        it[i.l.const] = v
                        st.heap[h] = ob.with_seq(
                            self.mk_tuple(it, q.kind)
                        )
                    elif isinstance(i, Int):
                        elems = BOT
                        for x in seq_elems(q):
                            elems = self.join_vals(elems, x)
                        tm = self.join_vals(elems, v)
                        st.heap[h] = ob.with_seq(
                            self.mk_span(q.kind, q.length(), tm)
                        )
                    else:
                        st.heap[h] = ob.with_seq(
                            self.mk_span(
                                q.kind, self.nn_atom(st), Opq(fresh('o'))
                            )
                        )
            return
        self.event('mutate', node, st, what='item of %s' % type(o).__name__,
                   phase=0, now=self.phase) if isinstance(
            o, (Seq, Geo)
        ) else None

    def nn_atom(self, st, tag='n'):
        a = ('nn', (fresh_id(tag),)) + st.ictx
        return A(a)

    def del_item(self, o, i, st, node):
        if isinstance(o, Ref):
            for h in o.ids:
                ob = st.heap.get(h)
                if ob is None:
                    continue
                self.check_mut(ob, node, st)
                if isinstance(ob, H.HSeq):
                    q = ob.seq
                    it = q.items()
                    if (
                        it is not None
                        and isinstance(i, Int)
                        and i.l.const is not None
                        and -len(it) <= i.l.const < len(it)
                        and len(o.ids) == 1
                        and not ob.summary
                    ):
                        del it[i.l.const]
                        st.heap[h] = ob.with_seq(self.mk_tuple(it, q.kind))
                        continue
                    n = self.nn_atom(st)
                    st.assume(f_lin(q.length() - n))
                    nq = self.weak_elem(q, n, st)
                    st.heap[h] = ob.with_seq(
                        nq.replace(
                            tags=q.tags & {'unique', 'unordered'},
                            subs=q.subs,
                        )
                    )

    def x_If(self, s, st, fid):
        outs = []
        for s2, b in self.cond(s.test, st, fid):
            outs.extend(
                self.exec_block(s.body if b else s.orelse, s2, fid)
                if (s.body if b else s.orelse)
                else [(None, s2, None)]
            )
        live = self.compact([x for c, x, _ in outs if c is None], s)
        return [o for o in outs if o[0] is not None] + [
            (None, x, None) for x in live
        ]

    def x_Assert(self, s, st, fid):
        out = []
        for s2, b in self.cond(s.test, st, fid):
            if b:
                out.append(s2)
            else:
                if not CHEAP:
                    self.event('assertfail', s, s2)
        return [(None, x, None) for x in self.compact(out, s)]

    def x_Raise(self, s, st, fid):
        if s.exc is None:
            self.raise_(st, Opq(fresh('exc')), s)
            return []
        for s2, v in self.ev(s.exc, st, fid):
            self.raise_(s2, v, s)
        return []

    def x_Try(self, s, st, fid):
        self.catch.append([])
        outs = self.exec_block(s.body, st, fid)
        raised = self.catch.pop()
        final = []
        for o in outs:
            if o[0] is None and s.orelse:
                final.extend(self.exec_block(s.orelse, o[1], fid))
            else:
                final.append(o)
        for s2, exc, node in raised:
            handled = False
            for h in s.handlers:
                t = True
                if h.type is not None:
                    t = None
                    for s3, ht in self.ev(h.type, s2, fid):
                        t = self.exc_match(exc, ht, s3)
                        s2 = s3
                if t is False:
                    continue
                s4 = s2 if t is True else s2.copy()
                if h.name:
                    self.bind(h.name, exc, s4, fid, h)
                final.extend(self.exec_block(h.body, s4, fid))
                if t is True:
                    handled = True
                    break
            if not handled:
                self.raise_(s2, exc, node)
        if s.finalbody:
            res = []
            for ctl, s2, v in final:
                for c2, s3, v2 in self.exec_block(s.finalbody, s2, fid):
                    res.append(
                        (ctl, s3, v) if c2 is None else (c2, s3, v2)
                    )
            final = res
        return final

    def exc_name(self, exc):
        if isinstance(exc, Lib):
            return exc.path.rpartition('.')[2]
        if isinstance(exc, LibObj) and exc.kind == 'exc':
            return self.exc_name(exc.data[0])
        if isinstance(exc, Cls):
            return exc.node.name
        return None

    def exc_match(self, exc, ht, st):
        if isinstance(ht, Seq):
            rs = [self.exc_match(exc, x, st) for x in (ht.items() or [])]
            if any(r is True for r in rs):
                return True
            return None if any(r is None for r in rs) else False
        a, b = self.exc_name(exc), self.exc_name(ht)
        if a is None or b is None:
            return None
        if a == b or b in ('Exception', 'BaseException'):
            return True
        ca, cb = getattr(_pybuiltins, a, None), getattr(_pybuiltins, b, None)
        if isinstance(ca, type) and isinstance(cb, type):
            return issubclass(ca, cb)
        if isinstance(exc, Cls) or (
            isinstance(exc, LibObj) and isinstance(exc.data[0], Cls)
        ):
            c = exc if isinstance(exc, Cls) else exc.data[0]
            for base in self.bases.get(nid(c.node), ()):
                r = self.exc_match(base, ht, st)
                if r:
                    return r
        return False

    def x_With(self, s, st, fid):
        cur = [st]
        for it in s.items:
            nxt = []
            for x in cur:
                for s2, v in self.ev(it.context_expr, x, fid):
                    if it.optional_vars is not None:
                        nxt.extend(
                            self.assign(
                                it.optional_vars, Opq(fresh('with')), s2, fid
                            )
                        )
                    else:
                        nxt.append(s2)
            cur = nxt
        out = []
        for x in cur:
            out.extend(self.exec_block(s.body, x, fid))
        return out

    def x_Match(self, s, st, fid):
        out = []
        for s0, v in self.ev(s.subject, st, fid):
            rest = [s0]
            for case in s.cases:
                nxt = []
                for x in rest:
                    for s2, ok in self.match_pattern(
                        case.pattern, v, x, fid
                    ):
                        if not ok:
                            nxt.append(s2)
                            continue
                        if case.guard is not None:
                            for s3, b in self.cond(case.guard, s2, fid):
                                if b:
                                    out.extend(
                                        self.exec_block(case.body, s3, fid)
                                    )
                                else:
                                    nxt.append(s3)
                        else:
                            out.extend(self.exec_block(case.body, s2, fid))
                rest = nxt
            out.extend((None, x, None) for x in rest)
        return out

    def match_pattern(self, p, v, st, fid):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.bind(p.name, v, st, fid, p)
                return [(st, True)]
            outs = self.match_pattern(p.pattern, v, st, fid)
            for s, ok in outs:
                if ok and p.name:
                    self.bind(p.name, v, s, fid, p)
            return outs
        if isinstance(p, (ast.MatchValue, ast.MatchSingleton)):
            res = []
            if isinstance(p, ast.MatchSingleton):
                cv = [(st, Const(p.value))]
                op = 'Is'
            else:
                cv = self.ev(p.value, st, fid)
                op = 'Eq'
            for s, c in cv:
                for s2, b in self.compare(op, v, c, s, p):
                    res.extend(self.branch(s2, b, p))
            return res
        if isinstance(p, ast.MatchOr):
            res = []
            cur = [st]
            for q in p.patterns:
                nxt = []
                for s in cur:
                    for s2, ok in self.match_pattern(q, v, s, fid):
                        if ok:
                            res.append((s2, True))
                        else:
                            nxt.append(s2)
                cur = nxt
            return res + [(s, False) for s in cur]
        self.undecided(p, 'match pattern')

    def x_FunctionDef(self, s, st, fid):
        out = []
        for s2, f in self.make_fn(s, st, fid):
            vals = [(s2, f)]
            for d in reversed(s.decorator_list):
                nxt = []
                for s3, v in vals:
                    for s4, dv in self.ev(d, s3, fid):
                        nxt.extend(self.decorate(dv, v, s4, d))
                vals = nxt
            for s3, v in vals:
                self.bind(s.name, v, s3, fid, s)
                out.append((None, s3, None))
        return out

    def decorate(self, dv, v, st, node):
        if isinstance(dv, Lib):
            n = dv.path.rpartition('.')[2]
            if n in ('property', 'cached_property'):
                return [(st, Composed('property', (v,)))]
            if n in ('classmethod', 'staticmethod'):
                return [(st, Composed(n, (v,)))]
            if n == 'composite':
                return [(st, Composed('composite', (v,)))]
            if n in (
                'abstractmethod', 'override', 'overload', 'final', 'cache',
                'lru_cache', 'unique', 'runtime_checkable', 'wraps',
                'cacheable', 'defines_strategy', 'total_ordering',
                'dataclass',
            ):
                return [(st, v)]
        if isinstance(dv, Composed) and dv.op == 'identity':
            return [(st, v)]
        return self.call(dv, [v], {}, st, node)

    def x_ClassDef(self, s, st, fid):
        out = []
        for s2, bases in self.ev_many(s.bases, st, fid):
            cls = Cls(s, self.finfo[fid].mod)
            cf = ('C', nid(s))
            self._keep = getattr(self, '_keep', [])
            self._keep.append(s)
            lo, g, n = scope_of(s)
            self.finfo[cf] = FInfo(fid, self.finfo[fid].mod, lo, s, g, n)
            self.parents[cf] = fid
            s2.frames[cf] = {}
            self.stack.append(cf)
            res = self.exec_block(s.body, s2, cf)
            self.stack.pop()
            for ctl, s3, _ in res:
                self.bases[nid(s)] = tuple(bases)
                self.base.frames.setdefault(cf, {}).update(s3.frames[cf])
                for k, v in list(s3.frames[cf].items()):
                    if isinstance(v, Fn):
                        nv = Fn(v.node, v.fid, v.mod, None, v.extra)
                        s3.frames[cf][k] = nv
                # enumeration members
                self.base.frames[cf] = s3.frames[cf]
                self.bind(s.name, cls, s3, fid, s)
                out.append((None, s3, None))
        return out

    def x_Import(self, s, st, fid):
        for a in s.names:
            if a.name == PKG or a.name.startswith(PKG + '.'):
                self.load(a.name)
                v = Mod(a.name if a.asname else a.name.split('.')[0])
            else:
                v = Lib(a.name if a.asname else a.name.split('.')[0])
            self.bind(
                a.asname or a.name.split('.')[0], v, st, fid, s
            )
        return [(None, st, None)]

    def x_ImportFrom(self, s, st, fid):
        mod = self.finfo[fid].mod
        if s.level:
            base = mod.split('.')
            isdir = os.path.isdir(
                os.path.join(self.root, *base)
            )
            up = s.level - (1 if isdir else 0)
            base = base[: len(base) - up] if up else base
            name = '.'.join(base + (s.module.split('.') if s.module else []))
        else:
            name = s.module
        if name == PKG or name.startswith(PKG + '.'):
            # module loading mutates self.base
            cur = self.base
            if self.phase == 0:
                self.base = st
                self.load(name)
                st2 = self.base
                if st2 is not st:
                    st.frames.update(st2.frames)
                    st.heap.update(st2.heap)
                    self.base = st
            for a in s.names:
                fr = st.frames.get('M:' + name) or self.base.frames.get(
                    'M:' + name
                )
                if fr is not None and a.name in fr:
                    v = fr[a.name]
                else:
                    if self.phase == 0:
                        self.base = st
                    if self.load(name + '.' + a.name) is None:
                        self.undecided(s, 'cannot import ' + a.name)
                    if self.base is not st:
                        st.frames.update(self.base.frames)
                        st.heap.update(self.base.heap)
                        self.base = st
                    v = Mod(name + '.' + a.name)
                self.bind(a.asname or a.name, v, st, fid, s)
            return [(None, st, None)]
        for a in s.names:
            if name == '__future__':
                continue
            v = Lib(name + '.' + a.name)
            if v.path in ('typing.TYPE_CHECKING',):
                v = FALSE
            self.bind(a.asname or a.name, v, st, fid, s)
        return [(None, st, None)]

    # ---------------------------------------------------------------- loops
    def x_For(self, s, st, fid):
        out = []
        for s2, it in self.ev(s.iter, st, fid):

            def body(x):
                return self.exec_block(s.body, x, fid)

            cheap = self.phase > 1 and not CHEAP and self.heavy(s)
            if cheap:
                CHEAP.append(s)
            try:
                out.extend(
                    self.for_loop(s, s.target, it, body, s2, fid, s.orelse)
                )
            finally:
                if cheap:
                    CHEAP.pop()
        return out

    def heavy(self, s, limit=4):
        r = getattr(s, '_weight', None)
        if r is None:
            if not self.defs:
                for t in self.trees.values():
                    for n in ast.walk(t):
                        if isinstance(n, ast.FunctionDef):
                            self.defs.setdefault(n.name, []).append(n)
            r = s._weight = loop_weight(
                s.body if isinstance(s, (ast.FunctionDef, ast.Lambda)) else s,
                self.defs,
                self.weights,
            )
        return r >= limit

    def for_loop(self, node, target, it, body, st, fid, orelse=()):
        """[(ctl, state, value)]"""
        if isinstance(it, Un):
            out = []
            for w in it.vs:
                out.extend(
                    self.for_loop(
                        node, target, w, body, st.copy(), fid, orelse
                    )
                )
            return out
        out = []
        infinite = isinstance(it, Composed) and it.op in ('cycle', 'count')
        if isinstance(it, Composed) and it.op == 'repeat1':
            infinite = True
        if infinite:
            v = it.args[0] if it.op == 'repeat1' else None
            q = None
            if it.op == 'cycle':
                (s0, q0), = self.as_seq(it.args[0], st, node)[:1]
                v = BOT
                for x in seq_elems(q0):
                    v = self.join_vals(v, x)
                v = self.blur_value(v, st)
            elif it.op == 'count':
                v = None
            return self.generic_loop(
                node, target, None, body, st, fid, orelse, forever=v
            )
        if isinstance(it, Composed) and it.op == 'enum':
            q, start = it.args
            seqs = [(st, q.replace(tags=q.tags | {('enum', start.l)}))]
        else:
            seqs = self.as_seq(it, st, node, consume=True)
        for s0, q in seqs:
            if 'unordered' in q.tags:
                out.extend(
                    self.unordered_loop(
                        node, target, q, body, s0, fid, orelse
                    )
                )
                continue
            out.extend(
                self.loop_parts(node, target, q, body, s0, fid, orelse)
            )
        return out

    def blur_value(self, v, st):
        return v

    def unordered_loop(self, node, target, q, body, st, fid, orelse):
        """Iterating an unordered collection: the body must be insensitive
        to order; effects other than on order-insensitive containers taint."""
        self.ghost_unord = getattr(self, 'ghost_unord', 0) + 1
        try:
            q2 = q.replace(tags=q.tags - {'unordered'})
            outs = self.loop_parts(node, target, q2, body, st, fid, orelse)
        finally:
            self.ghost_unord -= 1
        return outs

    def loop_parts(self, node, target, q, body, st, fid, orelse):
        out = []
        cur = [st]
        if q.perm or (
            len(q.parts) == 1 and isinstance(q.parts[0], Span)
        ):
            res = self.generic_loop(node, target, q, body, st, fid, orelse)
            return res
        total = len(q.parts)
        if total > 12 and all(isinstance(p, Item) for p in q.parts):
            v = BOT
            for p in q.parts:
                v = self.join_vals(v, p.v)
            return self.generic_loop(
                node,
                target,
                self.mk_span('list', q.length(), v),
                body,
                st,
                fid,
                orelse,
            )
        for pi, p in enumerate(q.parts):
            nxt = []
            for s in cur:
                if isinstance(p, Item):
                    for s2 in self.assign_loop(target, p.v, s, fid):
                        for ctl, s3, v in body(s2):
                            if ctl in (None, 'cnt'):
                                nxt.append(s3)
                            elif ctl == 'brk':
                                out.append((None, s3, None))
                            else:
                                out.append((ctl, s3, v))
                else:
                    one = q.replace(parts=(p,), sid=fresh_id('q'))
                    for ctl, s3, v in self.generic_loop(
                        node, target, one, body, s, fid, (), split=True,
                        tag=pi,
                    ):
                        if ctl is None:
                            nxt.append(s3)
                        elif ctl == 'brk':
                            out.append((None, s3, None))
                        else:
                            out.append((ctl, s3, v))
            cur = self.compact(nxt, node)
        for s in cur:
            if orelse:
                out.extend(self.exec_block(orelse, s, fid))
            else:
                out.append((None, s, None))
        return out

    def assign_loop(self, target, v, st, fid):
        if isinstance(v, Bot):
            return []
        return self.assign(target, v, st, fid)

    def x_While(self, s, st, fid):
        def body(x):
            return self.exec_block(s.body, x, fid)

        cheap = self.phase > 1 and not CHEAP and has_loop(s.body)
        if cheap:
            CHEAP.append(s)
        try:
            return self.generic_loop(
                s, None, None, body, st, fid, s.orelse, test=s.test
            )
        finally:
            if cheap:
                CHEAP.pop()

    def generic_loop(
        self,
        node,
        target,
        q,
        body,
        st,
        fid,
        orelse=(),
        test=None,
        forever=None,
        split=False,
        tag=0,
    ):
        from .loops import run_loop

        return run_loop(
            self,
            node,
            target,
            q,
            body,
            st,
            fid,
            orelse,
            test,
            forever,
            split,
            None,
            tag,
        )
