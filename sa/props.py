"""The claimed properties: what is analysed and by which rule."""
from . import spec

TRUSTED = [
    'contracts of hypothesis strategies, ground contexts, dendroid, '
    'bentley_ottmann, locus, decision and the standard library as modelled '
    'in sa/lib.py and sa/seqs.py',
    'assert statements of the analysed code hold (they are assumptions)',
    'coordinates are totally ordered numbers with exact comparison',
    'the abstract interpreter in sa/ is sound for the constructs it models; '
    'anything else is reported as undecided',
]

FUNCS = spec.FUNCTIONS
SIZED = [f for f in FUNCS if spec.SIZES[f]]


class Prop:
    def __init__(self, tasks, rule, explain, level='other'):
        self.tasks, self.rule = tasks, rule
        self.explain, self.level = explain, level


def maxes(f):
    return tuple(b for _, b, _ in spec.SIZES[f])


COST = {
    'mixes': 1200, 'multipolygons': 150, 'polygons': 20, 'multisegments': 18,
    'contours': 15, 'multicontours': 10, 'concave_contours': 7,
    'convex_contours': 4, 'star_contours': 2,
}
PARTS = {
    'mixes': 12, 'multipolygons': 5, 'contours': 3, 'multisegments': 4,
}


# ------------------------------------------------------------ factory phase
def build_tasks(kind):
    def make(root, tier):
        from . import rules_build as R

        out = []
        for f in FUNCS:
            for none in R.configs(f):
                if not spec.SIZES[f] and kind == 'validation':
                    continue
                label = '%s[%s]' % (f, ','.join(none))
                cost = COST.get(f, 1) * (1 + len(none))
                fn = {
                    'validation': lambda f=f, n=none: R.task_validation(
                        root, f, n),
                    'warnings': lambda f=f, n=none: R.task_warnings(
                        root, f, n),
                    'names': lambda f=f, n=none: R.task_warnings(
                        root, f, n, True),
                }[kind]
                if kind == 'names' and not spec.SIZES[f]:
                    continue
                out.append((label, cost, fn))
            if kind == 'warnings':
                out.append((
                    f + '[defaults]', 1,
                    lambda f=f: R.task_defaults(root, f),
                ))
        return out

    return make


# --------------------------------------------------------------- draw phase
# The strategies of mixes are six calls of one factory, each a union of two
# mirrored strategies (sorted by x, sorted by y); the quick tier draws from
# every call once, alternating between the two.
QUICK_MIXES = {False: (0, 3, 4, 7, 8, 11), True: (0, 3)}


HEAVY = ('mixes', 'multipolygons')
# several maximums whose presence can be mixed, cheap enough for every run
COMBINED = ('multicontours', 'polygons')


def subsets(names):
    out = [()]
    for n in names:
        out += [x + (n,) for x in out]
    return sorted(out, key=len)


def draw_shapes(f, ys, nones, tier):
    """(maximums passed as None, how y is passed) for the calls to draw."""
    ms = maxes(f)
    deep = tier == 'thorough'
    if not ms:
        shapes = [()]
    elif f in COMBINED and ('none' in nones or deep):
        shapes = subsets(ms)
    elif f == 'multipolygons' and deep:
        shapes = [()] + [(m,) for m in ms] + [ms]
    else:
        shapes = [()]
        if 'none' in nones and f not in HEAVY or 'all' in nones or deep:
            shapes.append(ms)
    for none in shapes:
        for y in ys:
            if y is not True and not deep:
                if f in HEAVY or none and ms:
                    continue
                if y == 'same' and COST.get(f, 1) > 4:
                    continue
            yield none, y


def draw_tasks(rule, funcs, ys=(True,), nones=('none',)):
    def make(root, tier):
        from . import rules_draw as R

        out = []
        for f in funcs:
            k = PARTS.get(f, 1)
            for none, y in draw_shapes(f, ys, nones, tier):
                if k == 1:
                    parts = [None]
                elif f == 'mixes' and tier == 'quick':
                    parts = [(i, k) for i in QUICK_MIXES[bool(none)]]
                else:
                    parts = [(i, k) for i in range(k)]
                for part in parts:
                    out.append((
                        '%s[%s%s]%s' % (
                            f, ','.join(none),
                            {'same': ' y=x', False: ' y=None'}.get(y, ''),
                            ' %d/%d' % (part[0] + 1, k) if part else '',
                        ),
                        COST.get(f, 1) / k,
                        lambda f=f, n=none, y=y, p=part:
                        R.draw_task(root, f, n, y, rule, 'C', p),
                    ))
        return out

    return make


ANY_Y = (True, False, 'same')


PROPS = {
    'C01': Prop(
        build_tasks('validation'),
        'abstract outcomes of each public factory over symbolic sizes: '
        'ValueError outcomes are disjoint from the valid sizes, normal '
        'outcomes are disjoint from every invalid clause',
        'Each public factory is interpreted abstractly for every choice of '
        'maximums given or None with the sizes symbolic; an obligation is '
        'one invalid clause, or one raise statement, against the linear '
        'facts of the outcomes.',
    ),
    'C02': Prop(
        build_tasks('warnings'),
        'the warnings collected along each abstract path equal the set of '
        'minimums below their floor',
        'Each path class of each public factory carries the multiset of '
        'warnings it issued; for every consistent choice of which minimums '
        'are below their floors the multiset must have one HypothesisWarning '
        'per such minimum.',
    ),
    'C03': Prop(
        draw_tasks('sizes', [f for f in SIZED if f != 'mixes'],
                   nones=('none', 'all')),
        'on every abstract draw, floor <= n, min <= n and n <= max follow '
        'from the linear facts of the path',
        'Every public sized strategy is drawn abstractly with symbolic '
        'sizes; obligations are the bounds of each counted part of the '
        'drawn value.',
    ),
    'C04': Prop(
        draw_tasks('coords', FUNCS, ys=ANY_Y),
        'provenance dataflow: the x (y) of each point of a drawn value '
        'originates only from the x (y) coordinate strategy',
        'Coordinates carry the set of coordinate strategies they can '
        'originate from; obligations are the coordinates of each geometry '
        'in each abstract draw.',
    ),
    'C05': Prop(
        draw_tasks('kinds', FUNCS, ys=(True, 'same')),
        'class and context of every part of every abstract draw',
        'Each drawn value is walked down to its coordinates and each part '
        'must be an instance of the documented class of the right context.',
    ),
    'C06': Prop(
        draw_tasks('segments', ['segments', 'multisegments', 'mixes'],
                   ys=ANY_Y),
        'the facts of each abstract draw exclude equal endpoints',
        'Each segment of each abstract draw must have endpoints that the '
        'path facts separate.',
    ),
    'C07': Prop(
        draw_tasks('unique_points', ['multipoints'], ys=ANY_Y),
        'uniqueness of the drawn point list',
        'The list of points of each abstract draw must carry the '
        'uniqueness fact to the constructor of the multipoint.',
    ),
    'C08': Prop(
        draw_tasks('boxes', ['boxes'], ys=ANY_Y),
        'min < max on both axes follows from the facts of each draw',
        'Order facts of each abstract draw of a box.',
    ),
    'C09': Prop(
        draw_tasks('triangles', ['triangular_contours'], ys=ANY_Y),
        'orientation facts of each draw of a triangle',
        'The orientation facts on each path to a drawn triangle must leave '
        'only the counterclockwise case.',
    ),
    'C10': Prop(
        draw_tasks('rectangles', ['rectangular_contours'],
                   ys=ANY_Y),
        'equalities and strict orders between the corners of each draw',
        'The facts of each draw must make the four vertices the corners of '
        'a proper rectangle in counterclockwise order.',
    ),
    'C11': Prop(
        build_tasks('names'),
        'constant text of each warning and error against the sizes at fault',
        'Each ValueError and HypothesisWarning text on each path must name '
        'a size parameter that the path facts make the offending one.',
    ),
}
