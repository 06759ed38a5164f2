#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PL = 'hypothesis_geometry/planar.py'
BASE = 'hypothesis_geometry/_core/base.py'
FACT = 'hypothesis_geometry/_core/factories.py'
CONT = 'hypothesis_geometry/_core/contracts.py'
UTIL = 'hypothesis_geometry/_core/utils.py'
SUBD = 'hypothesis_geometry/_core/subdivisional.py'
TRIA = 'hypothesis_geometry/_core/triangular.py'

TECH = 'abstract interpretation of the source (linear-inequality, %s domain)'
NOTE = (
    'Every path class of the public factories (and of the draws of the '
    'strategies they return) is interpreted abstractly with symbolic sizes '
    'and coordinates; an obligation the analysis cannot decide is counted as '
    'undecided in the evidence and never reported. Trusts the models of '
    'hypothesis, ground, dendroid, bentley_ottmann, locus, decision and the '
    'standard library in sa/, and that asserts of the analysed code hold. '
)

P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None,
         note='', na=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[
            dict(name=n, where=w) for n, w in mech
        ]),
        _technique=technique, _note=note, _na=na,
    ))


prop(
    'C01', 'Size parameters are rejected with ValueError exactly when invalid',
    'Calling a public strategy factory raises ValueError when, for a size '
    'parameter whose maximum is given, the maximum is below the documented '
    'floor of the geometry, or the minimum exceeds the maximum, or the '
    'minimum is negative; and, for mixes, when two of the maximums of its '
    'three kinds of components are zero. For every other choice of integer '
    'sizes the call returns a strategy: no ValueError, no assertion error '
    'and no other exception; without a maximum a negative or too small '
    'minimum is accepted, and a non-negative minimum below the floor always '
    'is.',
    ['inputs', 'configurations'],
    'every public factory, every combination of maximums given or None, all '
    'integer values of the sizes',
    'The tests call each factory with sizes from 0 to about 10, only with '
    'maximums given in the invalid cases, and never cross-check the boundary '
    'of every parameter against every other.',
    [PL], [('size validation', PL + ':_validate_sizes'),
           ('factories', PL + ':mixes'), ('factories', PL + ':multipolygons')],
    TECH % 'path',
)
prop(
    'C02', 'One HypothesisWarning per minimum below its floor, none otherwise',
    'Calling a public strategy factory with valid sizes issues exactly one '
    'HypothesisWarning for each minimum size below the documented floor of '
    'that size, and no warning at all when every minimum reaches its floor. '
    'In particular a call that leaves the sizes at their defaults is silent.',
    ['inputs', 'configurations'],
    'every public factory, every combination of maximums given or None, all '
    'valid integer sizes',
    'No test asserts the number of warnings, and tests for warnings exist '
    'for single parameters with the maximum given only.',
    [PL], [('size validation', PL + ':_validate_sizes'),
           ('factories', PL + ':mixes')],
    TECH % 'ghost-counter',
)
prop(
    'C03', 'Sizes of every drawn value stay within the requested bounds',
    'For every value drawn from a strategy with size parameters (mixes '
    'excepted), the number of points, segments, contours, polygons, border '
    'vertices, holes and hole vertices is at least the documented floor, at '
    'least the corresponding minimum size and at most the corresponding '
    'maximum size when that is given. The bounds of each size parameter '
    'apply to the part of the value that the parameter names.',
    ['inputs', 'histories'],
    'all valid integer sizes, all coordinates, all choices of the search '
    'engine, maximums given or None',
    'Tests draw a few dozen small examples per geometry with Fraction '
    'coordinates and sizes of at most about ten.',
    [PL, BASE, FACT, SUBD, TRIA],
    [('segments', BASE + ':to_multisegment_strategies'),
     ('contours', BASE), ('holes', FACT + ':to_polygon'),
     ('multicontours', BASE + ':to_multicontour_strategy')],
    TECH % 'size',
)
prop(
    'C04', 'Drawn coordinates come from the strategies of their own axis',
    'Every x coordinate of a point of a drawn value is a value drawn from '
    'the x coordinate strategy or lies between two such values, and every y '
    'coordinate likewise for the y coordinate strategy, or for the x '
    'strategy when no y strategy is given. Points, multipoints, segments, '
    'boxes and triangular and rectangular contours use drawn coordinates '
    'unchanged.',
    ['inputs', 'histories'],
    'all coordinate strategies on either axis, all sizes, all choices of the '
    'search engine',
    'Tests use one bounded coordinate domain per run and few examples; a '
    'value that leaks from the other axis needs disjoint domains and the '
    'right branch to show.',
    [PL, BASE, FACT], [('coordinates', BASE), ('contours', FACT)],
    TECH % 'provenance',
)
prop(
    'C05', 'Values have the documented class of the context that was passed',
    'Every drawn value is an instance of the class of the given context that '
    'the factory documents, and each of its parts (points, endpoints, '
    'segments, borders, holes, polygons) is an instance of the corresponding '
    'class of the same context. Multicontours are plain lists of contours.',
    ['inputs', 'configurations'],
    'every factory, any context, all sizes, all choices of the search engine',
    'Tests check top-level classes for a single default context, so a class '
    'taken from another context, or a wrong nested part on a rare branch, is '
    'not seen.',
    [PL, BASE, FACT], [('factories', PL), ('constructors', FACT)],
    TECH % 'type',
)
prop(
    'C06', 'No drawn segment is degenerate',
    'The two endpoints of every drawn segment differ, both for single '
    'segments and for the segments of multisegments and mixes.',
    ['inputs', 'histories'],
    'all coordinate strategies, including ones that repeat values, all '
    'sizes, all choices of the search engine',
    'Tests draw from wide Fraction domains in which equal endpoints are '
    'improbable unless the generator itself repeats a point.',
    [BASE, FACT], [('segments', BASE), ('edges', FACT +
                                        ':contour_vertices_to_edges')],
    TECH % 'disequality',
)
prop(
    'C07', 'Points of a drawn multipoint are pairwise different',
    'No two points of a drawn multipoint are equal, whatever the coordinate '
    'strategies produce.',
    ['inputs', 'histories'],
    'all coordinate strategies, all sizes, all choices of the search engine',
    'Tests sample wide coordinate domains where repeated points are '
    'improbable.',
    [BASE], [('multipoints', BASE)],
    TECH % 'uniqueness',
)
prop(
    'C08', 'Drawn boxes are proper on both axes',
    'Every drawn box has its minimum x strictly below its maximum x and its '
    'minimum y strictly below its maximum y.',
    ['inputs', 'histories'],
    'all coordinate strategies on either axis, all choices of the search '
    'engine',
    'Equal bounds need a repeated coordinate, which the sampled wide domains '
    'practically never produce.',
    [BASE, PL], [('boxes', PL + ':boxes')],
    TECH % 'order',
)
prop(
    'C09', 'Triangular contours are counterclockwise and not degenerate',
    'Every drawn triangular contour has exactly three vertices, which are '
    'not collinear and are listed counterclockwise.',
    ['inputs', 'histories'],
    'all coordinate strategies, all choices of the search engine',
    'Collinear triples are improbable in the sampled domains.',
    [BASE, FACT, CONT], [('triangles', BASE)],
    TECH % 'orientation-fact',
)
prop(
    'C10', 'Rectangular contours are proper axis-aligned rectangles',
    'Every drawn rectangular contour lists, counterclockwise, the four '
    'corners of an axis-aligned rectangle of positive width and height.',
    ['inputs', 'histories'],
    'all coordinate strategies on either axis, all choices of the search '
    'engine',
    'Tests never use coordinate domains small enough to repeat a value and '
    'check rectangularity only indirectly.',
    [BASE, FACT], [('rectangles', BASE)],
    TECH % 'order',
)
prop(
    'C11', 'Errors and warnings about sizes name the parameter at fault',
    'The text of every ValueError and HypothesisWarning about sizes names '
    'only size parameters of the called factory, and names at least one that '
    'is really at fault: the minimum that is below its floor in a warning, '
    'the maximum or minimum of the violated pair in an error.',
    ['inputs', 'configurations'],
    'every public factory, every combination of maximums given or None, all '
    'integer sizes',
    'Tests check only that some exception is raised, never which parameter '
    'its text blames.',
    [PL], [('size validation', PL + ':_validate_sizes')],
    TECH % 'path',
)
NA = [
    ('C20', 'Generated contours do not cross themselves',
     'Every drawn contour (of any kind, alone or as a border or hole) is '
     'simple: no two of its edges cross or overlap and no vertex repeats.',
     'Simplicity of the outputs of the Delaunay growth, star and convex '
     'constructions is a theorem of computational geometry about '
     'unbounded point sets and real coordinates; no dataflow or '
     'type-level argument over this source reaches it.',
     [FACT, BASE], [('contours', FACT + ':to_star_contour_vertices')]),
    ('C21', 'Holes lie strictly inside their borders and do not cross',
     'Every drawn polygon has its holes within its border, without crossing '
     'the border or each other.',
     'Containment follows from invariants of the constrained triangulation '
     'that quantify over all point sets; a sound static proof is out of '
     'reach.',
     [FACT, TRIA], [('polygons', FACT + ':to_polygon')]),
    ('C22', 'Components of multigeometries and mixes only touch at points',
     'Polygons of a drawn multipolygon and components of a drawn mix do not '
     'overlap: they share at most boundary points.',
     'Depends on the disjointness of the slabs into which sorted point sets '
     'are cut together with the hull properties of arbitrary real point '
     'sets; not expressible in the facts this analysis derives.',
     [BASE, PL], [('mixes', PL + ':mixes')]),
    ('C23', 'Star contours have a vertex-visible kernel',
     'Every drawn star contour is star-shaped.',
     'A metric theorem about angles around a centroid computed with square '
     'roots; no static rule decides it.',
     [FACT], [('star contours', FACT + ':to_star_contour_vertices')]),
    ('C24', 'Every draw terminates',
     'Drawing from any strategy with feasible coordinate strategies and '
     'sizes terminates with a value or a rejected example.',
     'The loops run until geometric conditions on the triangulation hold; a '
     'ranking function needs the correctness of the triangulation itself, '
     'and rejection by filters is probabilistic.',
     [FACT, TRIA], [('polygons', FACT + ':to_polygon')]),
]


def main():
    for i, t, s, why, files, mech in NA:
        prop(i, t, s, ['inputs', 'histories'],
             'all coordinate strategies, all sizes, all choices of the '
             'search engine',
             'Tests check this on a few dozen random examples only.',
             files, mech, na=why)
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            q = {k: v for k, v in p.items() if not k.startswith('_')}
            f.write(json.dumps(q) + '\n')
    checks = []
    for p in P:
        if p['_na'] is None:
            checks.append(dict(
                property=p['id'],
                quick_cmd='python3 check.py ' + p['id'],
                thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                technique=p['_technique'], level='other',
                level_note=NOTE + p['_note'],
            ))
    m = dict(
        version=1, setup_cmd='python3 -m compileall -q sa check.py',
        checks=checks,
        not_applicable=[dict(property=p['id'], reason=p['_na'])
                        for p in P if p['_na'] is not None],
    )
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
