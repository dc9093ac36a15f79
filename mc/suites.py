"""Scenarios explored for each of the properties of generated geometries."""
from fractions import Fraction
from itertools import product

from . import kinds
from .families import (
    FULL,
    Scenario,
    accumulate,
    all_gaps,
    full,
    natural_context,
    near_uniform,
    pairs,
    scenarios,
    to_values,
    uniform,
    wild,
)

QUICK, THOROUGH = 'quick', 'thorough'


def u(*sizes):
    return [uniform(p) for p in sizes]


def fractions(*values):
    return tuple(Fraction(value) for value in values)


SMALL, MEDIUM, LARGE, HUGE = range(4)
ALL = kinds.KINDS
CONTOURS = (
    'contours', 'convex_contours', 'concave_contours', 'star_contours',
)


def to_next_prime(value):
    while value < 5 or any(value % d == 0 for d in range(2, value)):
        value += 1
    return value


def grid(p, level, context):
    """pairs of domains of exactly `p` values each"""
    if p == 5:
        few = list(near_uniform(5, 1, (2, 3)))
        every = list(all_gaps(5, (1, 2, 3)))
        if level == SMALL:
            yield from pairs(few, few, context)
        elif level == MEDIUM:
            yield from pairs(every, few[:5], context)
        elif level == LARGE:
            yield from pairs(every, few, context)
            yield from pairs(few, every, context)
        else:
            yield from pairs(every, every, context)
        yield from pairs(wild(5), wild(5), context)
    elif p == 7:
        if level == SMALL:
            yield from pairs(
                near_uniform(7, 1, (2,)), near_uniform(7, 1, (2,)), context
            )
        elif level == MEDIUM:
            yield from pairs(
                near_uniform(7, 2, (2,)), near_uniform(7, 1, (2,)), context
            )
        elif level == LARGE:
            yield from pairs(
                all_gaps(7, (1, 2)), near_uniform(7, 2, (2,)), context
            )
        else:
            yield from pairs(
                all_gaps(7, (1, 2)), all_gaps(7, (1, 2)), context
            )
            yield from pairs(
                near_uniform(7, 2, (2, 3)), near_uniform(7, 2, (2, 3)),
                context,
            )
        if level:
            yield from pairs(wild(7), wild(7), context)
        else:
            yield from pairs(wild(7)[::2], wild(7)[1::2], context)
    elif p == 11:
        if level == SMALL:
            yield from pairs(u(11) + wild(11)[::4], u(11) + wild(11)[1::4],
                             context)
        elif level == MEDIUM:
            yield from pairs(
                near_uniform(11, 1, (2,)), u(11) + [wild(11)[0]], context
            )
            yield from pairs(wild(11)[::2], wild(11)[1::2], context)
        elif level == LARGE:
            yield from pairs(
                near_uniform(11, 1, (2,)), near_uniform(11, 1, (2,)), context
            )
            yield from pairs(wild(11), wild(11), context)
        else:
            yield from pairs(
                near_uniform(11, 2, (2,)), near_uniform(11, 1, (2, 3)),
                context,
            )
            for shift in range(3):
                yield from pairs(
                    wild(11) + wild(11)[:shift], wild(11), context
                )
    else:
        if level == SMALL:
            yield from pairs(u(p) + wild(p)[9:10], u(p) + wild(p)[10:],
                             context)
        elif level == MEDIUM:
            yield from pairs(u(p) + wild(p)[::3], u(p) + wild(p)[1::3],
                             context)
        elif level == LARGE:
            yield from pairs(wild(p), wild(p), context)
        else:
            yield from pairs(
                near_uniform(p, 1, (2,)), near_uniform(p, 1, (2,)), context
            )
            yield from pairs(wild(p), wild(p), context)


def skewed(p, context, ratios=(10 ** 9, 10 ** 20)):
    """gaps of very different magnitudes: nearly collinear points"""
    for ratio in ratios:
        patterns = [
            tuple((1, ratio, 2, 3 * ratio, 1, ratio + 1, 5)[(i + shift) % 7]
                  for i in range(p - 1))
            for shift in range(7)
        ]
        yield from pairs(patterns, patterns, context)
        near = [
            tuple(ratio + (i * shift) % 3 for i in range(p - 1))
            for shift in range(3)
        ]
        yield from pairs(near, near, context)


STAR_REGRESSION = (
    (0, 10 ** 20 + 1, 2 * 10 ** 20 + 1, 2 * 10 ** 20 + 4, 2 * 10 ** 20 + 7,
     3 * 10 ** 20 + 8, 4 * 10 ** 20 + 9),
    (0, 10 ** 20 + 1, 2 * 10 ** 20 + 2, 3 * 10 ** 20 + 2, 4 * 10 ** 20 + 2,
     5 * 10 ** 20 + 3, 6 * 10 ** 20 + 4),
)
SEGMENTS_REGRESSION = (
    (0, 10 ** 9, 10 ** 9 + 1, 2 * 10 ** 9 + 1, 2 * 10 ** 9 + 2,
     2 * 10 ** 9 + 9, 3 * 10 ** 9 + 9),
    (0, 10 ** 18, 10 ** 18 + 7, 10 ** 18 + 8, 10 ** 18 + 15, 10 ** 18 + 16,
     2 * 10 ** 18 + 16),
)


def regressions():
    for xs, ys in (STAR_REGRESSION, SEGMENTS_REGRESSION):
        yield fractions(*xs), fractions(*ys)


def C03(tier):
    T = tier == THOROUGH
    yield from habitual(tier, CONTOURS)
    yield from large(tier, CONTOURS)
    f = 'fraction'
    kind = 'concave_contours'
    yield from scenarios(kind, grid(5, HUGE if T else MEDIUM, f), {}, f, FULL)
    yield from scenarios(kind, grid(7, HUGE if T else MEDIUM, f), {}, f, FULL)
    yield from scenarios(kind, grid(11, LARGE if T else SMALL, f), {}, f, FULL)
    yield from scenarios(
        kind, grid(11, HUGE if T else LARGE, f), {'min_size': 10}, f, FULL
    )
    yield from scenarios(
        kind, grid(13, HUGE if T else MEDIUM, f), {'min_size': 12}, f, FULL
    )
    if T:
        yield from scenarios(
            kind, grid(17, MEDIUM, f), {'min_size': 14}, f, FULL
        )
        yield from scenarios(
            kind, grid(19, MEDIUM, f), {'min_size': 18}, f, FULL
        )
    kind = 'star_contours'
    yield from scenarios(kind, grid(5, LARGE if T else SMALL, f), {}, f, FULL)
    yield from scenarios(kind, grid(7, LARGE if T else MEDIUM, f), {}, f, FULL)
    yield from scenarios(kind, grid(11, LARGE if T else SMALL, f), {}, f, FULL)
    yield from scenarios(kind, skewed(5, f), {}, f, FULL)
    yield from scenarios(kind, skewed(7, f), {}, f, FULL)
    yield from scenarios(kind, regressions(), {}, f, FULL)
    yield from scenarios(
        'contours', skewed(7, f, (10 ** 9, 10 ** 20) if T else (10 ** 9,)),
        {'min_size': 4}, f, full(max_random=0),
    )
    yield from scenarios(
        'contours', pairs(wild(5)[:2 + 9 * T], wild(5)[4:6 + 6 * T], f), {},
        f, full(max_random=1),
    )
    yield from scenarios(
        'contours', pairs(wild(7)[:4], wild(7)[:4], f), {'min_size': 5}, f,
        full(max_random=1),
    )
    yield from simple_shapes(tier)
    for scenario in floats(tier):
        if scenario.kind.endswith('contours'):
            yield scenario
    # several sizes of collections
    yield from scenarios(
        'concave_contours',
        pairs(u(7) + wild(7)[:4 + 6 * T], u(7) + wild(7)[:2 + 6 * T], f), {},
        f, {'max_collection': 1 + T},
    )


def simple_shapes(tier):
    T = tier == THOROUGH
    for kind in ('triangular_contours', 'rectangular_contours'):
        yield from scenarios(
            kind, pairs(all_gaps(3, (1, 2, 3)), all_gaps(3, (1, 2)), 'int'),
            {}, 'int', {},
        )
        if T:
            yield from scenarios(
                kind, pairs(wild(4), wild(4), 'int'), {}, 'int', {},
            )


def C04(tier):
    T = tier == THOROUGH
    yield from habitual(tier, ('convex_contours', 'concave_contours'))
    yield from large(tier, ('convex_contours', 'concave_contours'))
    yield from simple_shapes(tier)
    kind = 'convex_contours'
    # splits of increments and shuffles for the smallest grid
    yield from scenarios(
        kind, pairs(wild(5)[:1 + 2 * T], [wild(5)[4]], 'int'),
        {'min_size': 5}, 'int', full(max_random=4 + T, parts=16),
    )
    yield from scenarios(
        kind, pairs(all_gaps(5, (1, 2)), near_uniform(5, 1, (3,)), 'int'),
        {'min_size': 5}, 'int', full(max_random=1 + T),
    )
    yield from scenarios(
        kind, pairs(wild(5)[:3 + 8 * T], wild(5)[3:5 + 6 * T], 'fraction'),
        {}, 'fraction', full(max_random=1),
    )
    yield from scenarios(
        kind, pairs(near_uniform(7, 1, (3,)), wild(7)[:2 + 9 * T], 'int'),
        {'min_size': 6}, 'int', full(max_random=1 + T),
    )
    yield from scenarios(
        kind, grid(11, LARGE if T else SMALL, 'int'),
        {'min_size': 8}, 'int', full(max_random=T),
    )
    yield from scenarios(
        kind, [
            (accumulate((1, 10 ** 400, 1, 2)), accumulate((3, 1, 1, 7))),
            (accumulate((1, 1, 10 ** 200, 2)), accumulate((10 ** 30, 1, 1, 7))),
        ], {'min_size': 4}, 'int', full(max_random=1),
    )
    for scenario in floats(tier):
        if scenario.kind in ('convex_contours', 'concave_contours'):
            yield scenario
    kind, f = 'concave_contours', 'fraction'
    yield from scenarios(kind, grid(5, HUGE if T else SMALL, f), {}, f, FULL)
    yield from scenarios(kind, grid(7, LARGE if T else SMALL, f), {}, f, FULL)
    yield from scenarios(kind, grid(11, LARGE if T else SMALL, f), {}, f, FULL)


def C05(tier):
    T = tier == THOROUGH
    yield from habitual(tier, ('star_contours',))
    yield from large(tier, ('star_contours',), 20)
    f = 'fraction'
    kind = 'star_contours'
    yield from scenarios(kind, grid(5, HUGE if T else LARGE, f), {}, f, FULL)
    yield from scenarios(
        kind, pairs(near_uniform(5, 2, (2, 3)), near_uniform(5, 2, (2, 3)), f),
        {}, f, FULL,
    )
    yield from scenarios(kind, grid(7, HUGE if T else LARGE, f), {}, f, FULL)
    yield from scenarios(kind, grid(11, HUGE if T else LARGE, f), {}, f, FULL)
    yield from scenarios(kind, grid(13, HUGE if T else MEDIUM, f), {}, f, FULL)
    for p in (5, 7, 11) + (13, 17) * T:
        yield from scenarios(kind, skewed(p, f), {}, f, FULL)
    yield from scenarios(kind, regressions(), {}, f, FULL)
    for p in (17, 19, 23):
        yield from scenarios(kind, grid(p, SMALL + T, f), {}, f, FULL)
    yield from scenarios(
        kind, pairs(u(7) + wild(7)[:4], wild(7)[:2 + 6 * T], f),
        {}, f, {'max_collection': 1 + T},
    )


def C06(tier):
    T = tier == THOROUGH
    domains = [
        (0,), (0, 1), (0, 0), (0, 0, 1), (-1, 0, 1), (2, 0, 1), (3, -3),
    ]
    int_pairs = list(product(domains, domains))
    i = 'int'
    yield from scenarios('segments', int_pairs, {}, i, {'max_order': 2})
    yield from scenarios('boxes', int_pairs, {}, i, {'max_order': 4})
    yield from scenarios(
        'multipoints', int_pairs,
        [{'min_size': a, 'max_size': b} for a, b in
         ((1, 1), (1, 2), (2, 2), (2, 3))], i, {'max_order': 1},
    )
    if T:
        yield from scenarios(
            'multipoints', int_pairs, [{'min_size': 3, 'max_size': 4}], i, {},
        )
    f = 'fraction'
    # equal coordinates which look different
    for alike in ((0.0, -0.0, 1.0), (-0.0, 0.0)):
        for other in ((0.0, -0.0), (2.0,)):
            for kind in ('segments', 'boxes', 'multipoints'):
                yield Scenario(
                    kind, alike, other,
                    {'min_size': 2} if kind == 'multipoints' else {},
                    'float', {'max_order': 2},
                )
    fraction_pairs = [
        (fractions(*xs), fractions(*ys)) for xs, ys in
        product(((0, 1, 2), (0, 0, 1), (0, 3, 1)), repeat=2)
    ]
    yield from scenarios(
        'multisegments', fraction_pairs, {'max_size': 2}, f,
        full(max_deviations=8 if T else 6, max_random=0),
    )
    mix_pairs = [
        (fractions(0, 2, 1, 3, 4), fractions(0, 1, 3, 4, 7)),
        (fractions(0, 2, 1, 3, 4, -1, -2), fractions(0, 5, 3, 4, 1)),
    ]
    yield from scenarios(
        'mixes', mix_pairs,
        [{'max_polygons_size': 0, 'min_points_size': a, 'max_points_size': b,
          'min_segments_size': c, 'max_segments_size': d}
         for a, b, c, d in ((1, 2, 1, 1), (2, 3, 1, 1), (1, 2, 2, 2))],
        f, full(max_deviations=3 + T, max_random=0, parts=4),
    )


def C07(tier):
    T = tier == THOROUGH
    yield from habitual(tier, ('multisegments',))
    yield from large(tier, ('multisegments',), 20)
    yield from many_bases(tier, ('multisegments',), 20)
    f = 'fraction'
    kind = 'multisegments'
    # every pair of segments
    yield from scenarios(
        kind,
        [(fractions(*xs), fractions(*ys)) for xs, ys in (
            ((0, 1, 2), (0, 1, 2)), ((0, 1, 3), (0, 2, 3)),
        )],
        {'max_size': 2}, f, full(max_random=0, parts=16)
    )
    # triples of segments
    yield from scenarios(
        kind, [(fractions(0, 1, 2, 3, 4), fractions(0, 1, 2, 4, 5))],
        {'min_size': 3, 'max_size': 3}, f,
        full(max_random=0, max_deviations=3 + T, parts=64),
    )
    # all construction branches
    yield from scenarios(
        kind, pairs(u(5) + wild(5)[T::2 - T], u(5) + wild(5)[1::2 - T], f),
        {'max_size': 3}, f, full(max_deviations=3, max_random=0),
    )
    yield from scenarios(
        kind, pairs(u(5) + wild(5)[:1 + T], u(5) + wild(5)[:1 + T], f),
        {'min_size': 3, 'max_size': 5}, f,
        full(max_deviations=4 + T, max_random=0, parts=8),
    )
    yield from scenarios(
        kind, pairs(u(7) + wild(7)[:T], u(7) + wild(7)[:1 + T], f),
        {'min_size': 5, 'max_size': 7}, f,
        full(max_deviations=3 + T, max_random=1, parts=8),
    )
    yield from scenarios(
        kind, pairs(u(5) + wild(5)[:3], u(5) + wild(5)[:2], f),
        {}, f, {'max_deviations': 3 + T, 'max_random': 0,
                'max_collection': 1, 'parts': 4},
    )
    yield from scenarios(
        kind, [*skewed(7, f, (10 ** 9,)), *regressions()],
        {'min_size': 3, 'max_size': 5}, f,
        full(max_deviations=2, max_random=0),
    )


def C08(tier):
    T = tier == THOROUGH
    yield from habitual(tier, ('multicontours',))
    yield from large(tier, ('multicontours',))
    yield from many_bases(tier, ('multicontours',), 20)
    kind = 'multicontours'
    i = 'int'
    yield from scenarios(kind, grid(7, LARGE if T else SMALL, i), {}, i, FULL)
    yield from scenarios(
        kind, grid(11, LARGE if T else SMALL, i),
        [{'max_size': 2, 'min_contour_size': 4}], i, FULL,
    )
    yield from scenarios(
        kind, grid(11, MEDIUM if T else SMALL, i),
        [{'min_size': 3, 'max_size': 3}], i,
        FULL if T else full(max_deviations=3),
    )
    yield from scenarios(
        kind, grid(11, MEDIUM if T else SMALL, i),
        {'max_size': 2, 'min_contour_size': 5}, i, FULL,
    )
    yield from scenarios(
        kind, grid(13, MEDIUM if T else SMALL, i),
        {'min_size': 4, 'max_size': 4}, i, full(max_deviations=3 + 3 * T),
    )
    yield from scenarios(
        kind, grid(13, MEDIUM if T else SMALL, i),
        {'min_size': 3, 'min_contour_size': 4}, i,
        full(max_deviations=3 + 2 * T, parts=4),
    )
    if T:
        yield from scenarios(
            kind, grid(17, SMALL, i), {'min_size': 5}, i,
            full(max_deviations=5, parts=8),
        )
    yield from scenarios(
        kind, pairs(u(8) + wild(8)[:2], u(8) + wild(8)[:1 + T], i),
        {'max_size': 2}, i, {'max_collection': 1 + T},
    )
    yield from scenarios(
        kind, pairs(u(7), wild(7)[:3], 'fraction'), {}, 'fraction', FULL
    )


def C09(tier):
    T = tier == THOROUGH
    yield from habitual(tier, ('polygons',))
    yield from large(tier, ('polygons',))
    yield from many_bases(tier, ('polygons',), 20)
    kind = 'polygons'
    i = 'int'
    yield from scenarios(kind, grid(5, LARGE if T else SMALL, i), {}, i, FULL)
    yield from scenarios(
        kind, grid(7, LARGE if T else MEDIUM, i), {'min_size': 4}, i, FULL
    )
    yield from scenarios(
        kind, grid(7, HUGE if T else LARGE, i), {'min_holes_size': 1}, i, FULL
    )
    yield from scenarios(
        kind, grid(11, LARGE if T else SMALL, i), {'min_holes_size': 1}, i,
        full(max_deviations=5 if T else 3),
    )
    yield from scenarios(
        kind, grid(11, LARGE if T else MEDIUM, i),
        [{'min_holes_size': 2}, {'min_holes_size': 1, 'min_hole_size': 5}],
        i, full(max_deviations=6 if T else 3),
    )
    yield from scenarios(
        kind, grid(13, LARGE if T else SMALL, i),
        [{'min_holes_size': 3}, {'min_holes_size': 2, 'min_hole_size': 4}],
        i, full(max_deviations=5 if T else 4),
    )
    if T:
        yield from scenarios(
            kind, grid(17, SMALL, i),
            [{'min_holes_size': 2}, {'min_holes_size': 3}], i,
            full(max_deviations=4),
        )
    yield from scenarios(
        kind, pairs(u(8) + wild(8)[:3], u(8) + wild(8)[:2 + 5 * T], i),
        {'min_holes_size': 1}, i, {'max_collection': 1 + T},
    )
    yield from scenarios(
        kind, pairs(u(7) + wild(7)[:3], wild(7)[:3], 'fraction'),
        {'min_holes_size': 1}, 'fraction', FULL,
    )


def C10(tier):
    T = tier == THOROUGH
    yield from habitual(tier, ('multipolygons',))
    yield from large(tier, ('multipolygons',))
    yield from many_bases(tier, ('multipolygons',), 20)
    kind = 'multipolygons'
    i = 'int'
    yield from scenarios(
        kind, pairs(near_uniform(10, 1, (2,)), u(10) + wild(10)[:1 + 5 * T],
                    i),
        {}, i, full(max_deviations=3 + T),
    )
    yield from scenarios(
        kind, pairs(wild(10), wild(10)[1:3 + 5 * T], i),
        {}, i, full(max_deviations=3 + T),
    )
    yield from scenarios(
        kind, pairs(u(10), u(10), i), {'max_size': 2}, i,
        full(max_deviations=5 + T, parts=32),
    )
    yield from scenarios(
        kind, pairs(u(12) + wild(12)[:1], u(12) + wild(12)[1:2 + T], i),
        {}, i, full(max_deviations=3 + T, parts=8),
    )
    # with holes
    yield from scenarios(
        kind, pairs(u(14) + wild(14)[:1 + T], u(14) + wild(14)[:T], i),
        [{'min_holes_size': 1, 'max_size': 2},
         {'max_holes_size': 1, 'max_size': 2}], i,
        full(max_deviations=3 + T, parts=8),
    )
    # three polygons
    yield from scenarios(
        kind, pairs(u(15) + wild(15)[:2 * T], u(15) + wild(15)[:T], i),
        [{'min_size': 3, 'max_holes_size': 0}], i,
        full(max_deviations=3, parts=32),
    )
    yield from scenarios(
        kind, pairs(wild(15)[4:5], wild(15)[5:6], i),
        [{'min_size': 3, 'max_holes_size': 0}], i,
        full(max_deviations=2 + T, parts=8),
    )
    yield from scenarios(
        kind, pairs(u(11), u(11), i), {}, i,
        {'max_collection': 1, 'max_deviations': 2 + T, 'parts': 4},
    )


MIX_COMPONENTS = [
    {'max_polygons_size': 0},
    {'max_segments_size': 0},
    {'max_points_size': 0},
    {'min_points_size': 1, 'min_segments_size': 1, 'max_polygons_size': 0},
    {'min_segments_size': 1, 'min_polygons_size': 1, 'max_points_size': 0},
    {'min_points_size': 1, 'min_segments_size': 1, 'min_polygons_size': 1},
]


def C11(tier):
    T = tier == THOROUGH
    yield from habitual(tier, ('mixes',))
    yield from large(tier, ('mixes',))
    yield from many_bases(tier, ('mixes',), 20)
    kind, f = 'mixes', 'fraction'
    d = full(max_deviations=3 + T, max_random=0, parts=4)
    yield from scenarios(
        kind, pairs(u(7) + wild(7)[:1 + T], u(7) + wild(7)[4:4 + T], f),
        [MIX_COMPONENTS[1], MIX_COMPONENTS[4]], f, d,
    )
    yield from scenarios(
        kind, pairs(u(9), u(9) + wild(9)[:1], f), MIX_COMPONENTS[2], f,
        full(max_deviations=2 + T, max_random=0),
    )
    yield from scenarios(
        kind, pairs(u(5) + wild(5)[:1 + T], u(5), f),
        [MIX_COMPONENTS[0], MIX_COMPONENTS[3]], f, d,
    )
    yield from scenarios(
        kind, pairs(u(4) + wild(4)[:T], u(5), f),
        MIX_COMPONENTS[0], f,
        full(max_deviations=4 + T, max_random=0, parts=8),
    )
    yield from scenarios(
        kind, pairs(u(8) + wild(8)[:1], u(8) + wild(8)[:1], f),
        MIX_COMPONENTS[5], f, full(max_deviations=2 + T, max_random=0),
    )
    yield from scenarios(
        kind, pairs(u(10) + wild(10)[:1], u(10), f),
        {'max_points_size': 0, 'min_polygons_size': 1,
         'max_segments_size': 1}, f,
        full(max_deviations=3, max_random=0, parts=8),
    )
    # touching combinations
    yield from scenarios(
        kind, pairs(u(7), u(7), f),
        {'max_points_size': 0, 'min_segments_size': 1,
         'max_segments_size': 1, 'min_polygons_size': 1}, f,
        full(max_deviations=4 + T, max_random=0, parts=16),
    )
    yield from scenarios(
        kind, pairs(u(9), u(9), f),
        {'max_points_size': 0, 'min_segments_size': 2,
         'max_segments_size': 2, 'max_polygons_size': 1}, f,
        full(max_deviations=3 + T, max_random=0, parts=16),
    )
    yield from scenarios(
        kind, pairs(u(11), u(11), f),
        {'max_points_size': 1, 'max_segments_size': 0,
         'min_polygons_size': 2}, f,
        full(max_deviations=3, max_random=0, parts=16),
    )
    yield from scenarios(
        kind, pairs(u(7), u(7), 'int'),
        {'max_segments_size': 0, 'min_points_size': 1, 'max_points_size': 2},
        'int', full(max_deviations=4, max_random=0, parts=16),
    )
    # groups of segments sharing a coordinate, sliced along either axis
    for axis in (0, 1):
        yield from scenarios(
            kind, pairs(u(7), u(7), f),
            {'max_points_size': 1, 'min_segments_size': 3,
             'max_segments_size': 3, 'max_polygons_size': 0}, f,
            full(max_deviations=2 + T, max_random=0, max_values=5,
                 prefix=(axis,), parts=32),
        )


# parameters which need a grid of the given size to be satisfied
REPRESENTATIVES = [
    ('points', 4, [{}], {}),
    ('segments', 3, [{}], {}),
    ('boxes', 4, [{}], {'max_order': 1}),
    ('multipoints', 3, [{'min_size': 2, 'max_size': 3}],
     {'max_deviations': 4}),
    ('triangular_contours', 3, [{}], {'max_deviations': 4}),
    ('rectangular_contours', 4, [{}], {'max_order': 1}),
    ('convex_contours', 5, [{}], full(max_random=1, max_deviations=3)),
    ('convex_contours', 7, [{'min_size': 5}],
     full(max_random=1, max_deviations=3)),
    ('concave_contours', 7, [{}], {'max_collection': 1}),
    ('concave_contours', 11, [{'min_size': 7}], FULL),
    ('star_contours', 7, [{}], {'max_collection': 1}),
    ('contours', 7, [{'min_size': 4}],
     full(max_random=0, max_deviations=3)),
    ('contours', 5, [{'max_size': 4}],
     full(max_random=0, max_deviations=4)),
    ('multisegments', 5, [{}, {'max_size': 3}, {'min_size': 3}],
     {'max_collection': 1, 'max_deviations': 3, 'max_random': 0}),
    ('multicontours', 7, [{}], FULL),
    ('multicontours', 11, [{'min_contour_size': 4}],
     full(max_deviations=3)),
    ('polygons', 7, [{}, {'min_holes_size': 1}], {'max_collection': 1}),
    ('polygons', 11, [{'min_holes_size': 1, 'max_holes_size': 2}],
     full(max_deviations=3)),
    ('multipolygons', 10, [{}], full(max_deviations=3)),
    ('multipolygons', 14, [{'min_holes_size': 1}], full(max_deviations=2)),
    ('mixes', 5, [{'max_polygons_size': 0}],
     full(max_deviations=2, max_random=0)),
    ('mixes', 7, [{'max_segments_size': 0}, {'max_points_size': 0}],
     full(max_deviations=3, max_random=0)),
    ('mixes', 8, [{'min_points_size': 1, 'min_segments_size': 1,
                   'min_polygons_size': 1}],
     full(max_deviations=2, max_random=0)),
]


def deepened(budgets, amount):
    return {
        name: value + amount if name in ('max_deviations', 'max_random')
        else value
        for name, value in budgets.items()
    }


def representatives(tier, x_patterns, y_patterns, *, disjoint):
    for kind, p, params, budgets in REPRESENTATIVES:
        context = natural_context(kind)
        if tier == THOROUGH:
            budgets = {**deepened(budgets, 1), 'parts': 8}
        for xs, ys in pairs(x_patterns(p), y_patterns(p), context,
                            y_shift=10 ** 4 if disjoint else 0):
            for one in params:
                yield Scenario(kind, xs, ys, one, context, budgets)


def floats(tier):
    """coordinates whose differences are rounded"""
    T = tier == THOROUGH
    f = 'float'
    yield from scenarios(
        'convex_contours', pairs(wild(5)[:3 + 6 * T], wild(5)[3:6 + 3 * T], f),
        {'min_size': 4}, f, full(max_random=1 + T),
    )
    yield from scenarios(
        'convex_contours', pairs(u(7) + wild(7)[:2 + 6 * T],
                                 u(7) + wild(7)[6:8 + 6 * T], f),
        {'min_size': 5}, f, full(max_random=T),
    )
    yield from scenarios(
        'convex_contours', pairs(u(11) + wild(11)[8:], u(11) + wild(11)[7:],
                                 f),
        {'min_size': 7}, f, full(max_random=T),
    )
    for kind in ('contours', 'multisegments'):
        yield from scenarios(
            kind, pairs(u(5) + wild(5)[8:8 + 2 * T], wild(5)[8:9 + 2 * T], f),
            {'min_size': 4}, f, full(max_random=0, max_deviations=2 + T),
        )
    for kind in ('concave_contours', 'star_contours', 'polygons'):
        yield from scenarios(
            kind, pairs(u(7) + wild(7)[8:9 + 2 * T], wild(7)[8:10 + 2 * T], f),
            {}, f, full(max_deviations=2 + T),
        )


# rather large geometries: kind, sizes of grids, parameters
LARGE_SIZES = [
    ('star_contours', (17, 25, 35, 49), [{}, {'min_size': 12}]),
    ('concave_contours', (17, 25, 35), [{}, {'min_size': 13}]),
    ('convex_contours', (17, 25, 35), [{'min_size': 8}]),
    ('contours', (17, 25), [{'min_size': 12}, {'min_size': 9, 'max_size': 15}],
     ),
    ('multicontours', (19, 25), [
        {'min_size': 5}, {'min_size': 3, 'min_contour_size': 6},
        {'min_size': 6, 'max_size': 6, 'max_contour_size': 3},
    ]),
    ('polygons', (17, 25), [
        {'min_size': 10}, {'min_holes_size': 3}, {'min_holes_size': 4},
        {'min_size': 6, 'max_size': 9, 'min_holes_size': 2,
         'max_holes_size': 3, 'max_hole_size': 5},
    ]),
    ('multipolygons', (23, 36), [
        {'min_size': 4}, {'min_size': 3, 'min_border_size': 5},
        {'min_size': 4, 'max_size': 4, 'max_border_size': 4,
         'max_holes_size': 0},
    ]),
    ('multipolygons', (28, 36), [
        {'min_size': 3, 'min_holes_size': 1},
        {'min_holes_size': 2},
    ]),
    ('multisegments', (11, 13), [
        {'min_size': 8}, {'min_size': 7, 'max_size': 9},
    ]),
    ('mixes', (17, 24), [
        {'min_points_size': 3, 'min_segments_size': 3,
         'min_polygons_size': 1},
        {'min_polygons_size': 2, 'max_points_size': 2,
         'max_segments_size': 3},
        {'min_points_size': 4, 'max_polygons_size': 0,
         'min_segments_size': 3},
    ]),
    ('mixes', (25,), [
        {'min_polygons_size': 3, 'max_points_size': 1,
         'max_segments_size': 1},
        {'min_polygons_size': 1, 'min_polygon_holes_size': 2,
         'max_segments_size': 1},
    ]),
]


def large(tier, kinds, spreads=6):
    """
    big geometries and collections with many members: everything within one
    deviation from several base executions
    """
    T = tier == THOROUGH
    variant = 0
    for kind, sizes, params in LARGE_SIZES:
        if kind not in kinds:
            continue
        context = natural_context(kind)
        for size in sizes:
            patterns = [uniform(size), *wild(size)]
            for one in params:
                for spread in range(1, (5 * spreads if T else spreads) + 1):
                    variant += 1
                    yield Scenario(
                        kind,
                        to_values(
                            patterns[variant % len(patterns)], variant,
                            context,
                        ),
                        to_values(
                            patterns[(variant * 5 + 2) % len(patterns)],
                            variant + 1, context,
                        ),
                        one, context,
                        full(max_deviations=1, max_random=0, spread=spread),
                    )


def habitual(tier, kinds, small=(11, 3), big=(7, 3)):
    """
    executions in which similar questions are answered following the same
    pattern, see `explorer.explore_habits`
    """
    T = tier == THOROUGH
    sizes = [
        (kind, size, params, small)
        for kind, p, params, _ in REPRESENTATIVES
        for size in ((p, p + 1, p + 4) if T else (p, p + 2))
    ] + [
        (kind, size, params, big)
        for kind, sizes, params in LARGE_SIZES
        for size in (sizes if T else sizes[:1])
    ]
    variant = 0
    for kind, size, params, habits in sizes:
        if kind not in kinds:
            continue
        if T:
            habits = {
                (11, 3): (11, 4), (7, 3): (7, 4), (7, 2): (11, 3),
            }[habits]
        context = natural_context(kind)
        patterns = [uniform(size), *wild(size)]
        for one in params:
            for _ in range(1 + T):
                variant += 1
                yield Scenario(
                    kind,
                    to_values(
                        patterns[variant // 2 % len(patterns)], variant,
                        context,
                    ),
                    to_values(
                        patterns[variant * 5 // 2 % len(patterns)],
                        variant + 1, context,
                    ),
                    one, context, {'habits': habits, 'parts': 16 if T else 4},
                )


def many_bases(tier, kinds, spreads):
    """small geometries, neighbourhoods of many base executions"""
    T = tier == THOROUGH
    variant = 0
    for kind, p, params, _ in REPRESENTATIVES:
        if kind not in kinds:
            continue
        context = natural_context(kind)
        patterns = [uniform(p), *wild(p)]
        for one in params:
            for spread in range(1, (5 * spreads if T else spreads) + 1):
                variant += 1
                yield Scenario(
                    kind,
                    to_values(
                        patterns[variant % len(patterns)], variant, context,
                    ),
                    to_values(
                        patterns[(variant * 5 + 2) % len(patterns)],
                        variant + 1, context,
                    ),
                    one, context,
                    full(max_deviations=1, max_random=0, spread=spread),
                )


def C01(tier):
    T = tier == THOROUGH
    yield from habitual(tier, ALL, (7, 3), (7, 2))
    yield from many_bases(tier, ALL, 3)
    yield from representatives(
        tier, lambda p: u(p) + wild(p)[:1 + 3 * T],
        lambda p: wild(p)[4:5 + 3 * T], disjoint=True,
    )
    # the same strategy for both axes
    for kind, p, params, budgets in REPRESENTATIVES:
        context = natural_context(kind)
        for gaps in u(p) + wild(p)[:2 * T]:
            for one in params:
                yield Scenario(
                    kind, to_values(gaps, 1, context), None, one, context,
                    budgets,
                )
    # different types of numbers along the axes
    f = 'fraction'
    yield from scenarios(
        'convex_contours',
        pairs(wild(5)[:2 + 2 * T], wild(5)[2:4 + 2 * T], f, y_shift=10 ** 4),
        {'min_size': 5}, f, full(max_random=2),
    )
    yield from floats(tier)
    yield from scenarios(
        'mixes', pairs(u(7), wild(7)[:1 + T], f, y_shift=10 ** 4),
        MIX_COMPONENTS[4], f,
        full(max_deviations=3 + T, max_random=0, parts=8),
    )


def bounds(lows, widths):
    for low in lows:
        for width in widths:
            yield low, None if width is None else low + width


def tight_mixes():
    """bounds of one part of mixes while others are as few as possible"""
    few = {'max_points_size': 1, 'max_segments_size': 1,
           'max_polygons_size': 1, 'max_polygon_border_size': 4,
           'max_polygon_holes_size': 0}
    absences = [{}] + [
        {f'max_{component}_size': 0}
        for component in ('points', 'segments', 'polygons')
    ]
    for component in ('points', 'segments', 'polygons'):
        for low, high in ((0, 1), (0, 2), (1, 1), (1, 2), (2, 2)):
            for absent in absences:
                if f'max_{component}_size' not in absent:
                    yield 17 if component == 'polygons' else 13, {
                        **few, **absent, f'min_{component}_size': low,
                        f'max_{component}_size': high,
                    }
    for absent in absences[:-1]:
        # with polygons and without ones
        for low in (0, 1):
            base = {**few, **absent, 'min_polygons_size': low}
            for border in ((3, 3), (4, 4), (3, 4), (4, 5), (5, 5)):
                yield 14, {**base, 'min_polygon_border_size': border[0],
                           'max_polygon_border_size': border[1]}
            if not low:
                continue
            for count, size in product(
                ((0, 1), (1, 1), (1, 2)), ((3, 3), (4, 4), (3, 4)),
            ):
                yield 17 if count[1] == 2 else 14, {
                    **base, 'max_polygon_border_size': 6,
                    'min_polygon_holes_size': count[0],
                    'max_polygon_holes_size': count[1],
                    'min_polygon_hole_size': size[0],
                    'max_polygon_hole_size': size[1],
                }


def tight(tier):
    """parts could be more or greater if not for bounds"""
    T = tier == THOROUGH
    sizes = [('mixes', size, params) for size, params in tight_mixes()]
    for low, high in ((2, 2), (2, 3), (3, 3)):
        for border in ((3, None), (3, 3), (4, 5)):
            for holes in (0, None):
                sizes.append(('multipolygons', 5 * high + 7, {
                    'min_size': low, 'max_size': high,
                    'min_border_size': border[0],
                    'max_border_size': border[1], 'max_holes_size': holes,
                }))
        for hole in ((3, 3), (4, 4), (3, 4)):
            if high == 2:
                sizes.append(('multipolygons', 23, {
                    'min_size': low, 'max_size': high, 'min_holes_size': 1,
                    'max_holes_size': 1, 'min_hole_size': hole[0],
                    'max_hole_size': hole[1],
                }))
        for contour in ((3, None), (3, 3), (4, 4), (3, 4)):
            sizes.append(('multicontours', to_next_prime(5 * high + 4), {
                'min_size': low, 'max_size': high,
                'min_contour_size': contour[0],
                'max_contour_size': contour[1],
            }))
    for border, count, hole in product(
        ((3, 4), (5, 5), (5, None)), ((0, 1), (1, 1), (2, 2), (1, None)),
        ((3, 3), (4, 4), (3, None)),
    ):
        sizes.append(('polygons', 17, {
            'min_size': border[0], 'max_size': border[1],
            'min_holes_size': count[0], 'max_holes_size': count[1],
            'min_hole_size': hole[0], 'max_hole_size': hole[1],
        }))
    for low, high in ((2, 2), (2, 4), (3, 3), (5, 5)):
        sizes.append(('multisegments', 11, {'min_size': low,
                                            'max_size': high}))
        sizes.append(('multipoints', 7, {'min_size': low - 1,
                                         'max_size': high - 1}))
    for variant, (kind, size, params) in enumerate(sizes):
        context = natural_context(kind)
        patterns = [uniform(size), *wild(size)]
        yield Scenario(
            kind,
            to_values(patterns[variant % len(patterns)], variant, context),
            to_values(
                patterns[(variant * 5 + 2) % len(patterns)], variant + 1,
                context,
            ),
            params, context,
            {'habits': (7, 4), 'parts': 16} if T else {'habits': (7, 3)},
        )


def C02(tier):
    yield from tight(tier)
    T = tier == THOROUGH
    yield from habitual(tier, ALL, (7, 3), (7, 2))
    yield from large(tier, ALL, 2)
    yield from many_bases(tier, ALL, 4)
    f, i = 'fraction', 'int'

    def domain(size, variant=0, context='int'):
        patterns = [uniform(size), *wild(size)]
        xs = to_values(patterns[variant % len(patterns)], variant, context)
        ys = to_values(
            patterns[(variant * 5 + 2) % len(patterns)], variant + 1, context
        )
        return xs, ys

    variant = 0
    for low, high in bounds(range(1, 5), (None, 0, 1, 2)):
        yield Scenario(
            'multipoints', (0, 1, 2), (0, 5),
            {'min_size': low, 'max_size': high}, i,
            {'max_deviations': 4 + T},
        )
    for low, high in bounds(range(2, 7 + T), (None, 0, 1, 2)):
        size = max(to_next_prime(max(low, 3)), low + 2)
        for _ in range(1 + T):
            variant += 1
            yield Scenario(
                'multisegments', *domain(size, variant, f),
                {'min_size': low, 'max_size': high}, f,
                {'max_collection': 1, 'max_deviations': 3, 'max_random': 0}
                if T or low < 5
                else full(max_deviations=2, max_random=0),
            )
    for kind in ('contours', 'convex_contours', 'concave_contours',
                 'star_contours'):
        floor = 4 if kind == 'concave_contours' else 3
        for low, high in bounds(range(floor, 9 + 3 * T), (None, 0, 1, 2, 4)):
            size = to_next_prime(low)
            randoms = kind in ('contours', 'convex_contours')
            for extra in (0, 1, 4) if T or low < 7 else (0,):
                variant += 1
                yield Scenario(
                    kind, *domain(size + extra, variant, f),
                    {'min_size': low, 'max_size': high}, f,
                    full(max_random=1 + T, max_deviations=1 + 2 * T)
                    if randoms
                    else {'max_collection': 1 + T, 'max_deviations': 2 + T}
                    if extra == 1 else FULL,
                )
    for count, size in product(
        [(2, None), (2, 2), (2, 3), (3, None), (3, 3)],
        [(3, None), (3, 3), (3, 4), (4, None), (4, 4), (4, 5), (5, 6)],
    ):
        if count[0] * size[0] > 13:
            continue
        variant += 1
        points = to_next_prime(count[0] * size[0])
        for extra in (0, 4) if T else (0,):
            yield Scenario(
                'multicontours', *domain(points + extra, variant),
                {'min_size': count[0], 'max_size': count[1],
                 'min_contour_size': size[0], 'max_contour_size': size[1]},
                i, full(max_deviations=4 if T else 3 if count[0] < 3 else 2),
            )
    for border, count, hole in product(
        [*bounds(range(3, 7), (None, 0, 1, 2))],
        [(0, None), (0, 0), (0, 1), (1, 1), (1, 2), (1, None), (2, 2)],
        [(3, None), (3, 3), (3, 4), (4, None), (4, 4), (5, 5)],
    ):
        if count[1] == 0 and hole != (3, None):
            continue
        needed = border[0] + max(count[0], 1) * hole[0]
        if needed > 13:
            continue
        points = to_next_prime(needed)
        variant += 1
        yield Scenario(
            'polygons', *domain(points, variant),
            {'min_size': border[0], 'max_size': border[1],
             'min_holes_size': count[0], 'max_holes_size': count[1],
             'min_hole_size': hole[0], 'max_hole_size': hole[1]},
            i, full(max_deviations=2 + T),
        )
    for count, border, holes, hole in product(
        [(2, None), (2, 2), (2, 3), (3, 3)],
        [(3, None), (3, 3), (4, 4), (3, 4), (4, 5)],
        [(0, None), (0, 0), (1, 1), (0, 1)],
        [(3, None), (3, 3), (4, 4)],
    ):
        if holes[1] == 0 and hole != (3, None):
            continue
        if not T and holes[0] and count[0] > 2:
            continue
        points = count[0] * to_next_prime(border[0] + holes[0] * hole[0])
        variant += 1
        yield Scenario(
            'multipolygons', *domain(points + variant % 3, variant),
            {'min_size': count[0], 'max_size': count[1],
             'min_border_size': border[0], 'max_border_size': border[1],
             'min_holes_size': holes[0], 'max_holes_size': holes[1],
             'min_hole_size': hole[0], 'max_hole_size': hole[1]},
            i, full(max_deviations=2 + T if T or points <= 14 else 1),
        )
    component = [(0, None), (0, 0), (0, 1), (1, 1), (1, 2), (2, 2)]
    for points, segments, polygons in product(component, repeat=3):
        if sum(high != 0 for _, high in (points, segments, polygons)) < 2:
            continue
        size = points[0] + 2 * segments[0] + 5 * polygons[0]
        size += 2 if points[0] else 3
        smallest = 7 if polygons[1] != 0 else 5
        if (polygons[0] == 2 or size > 10) and not T:
            continue
        variant += 1
        yield Scenario(
            'mixes', *domain(max(size, smallest), variant, f),
            {'min_points_size': points[0], 'max_points_size': points[1],
             'min_segments_size': segments[0],
             'max_segments_size': segments[1],
             'min_polygons_size': polygons[0],
             'max_polygons_size': polygons[1]},
            f, full(
                max_deviations=2 if T or size < 7 and polygons[1] else 1,
                max_random=0,
            ),
        )
    for border, holes, hole in product(
        [(3, 3), (4, 4), (4, None), (3, 5)], [(0, 0), (0, None), (1, 1)],
        [(3, None), (3, 3), (4, 4)],
    ):
        if holes[1] == 0 and hole != (3, None):
            continue
        size = to_next_prime(border[0] + max(holes[0], 1) * hole[0]) + 2
        variant += 1
        yield Scenario(
            'mixes', *domain(size, variant, f),
            {'min_points_size': variant % 2, 'max_points_size': 2,
             'max_segments_size': 1, 'min_polygons_size': 1,
             'max_polygons_size': 1,
             'min_polygon_border_size': border[0],
             'max_polygon_border_size': border[1],
             'min_polygon_holes_size': holes[0],
             'max_polygon_holes_size': holes[1],
             'min_polygon_hole_size': hole[0],
             'max_polygon_hole_size': hole[1]},
            f, full(max_deviations=1 + T, max_random=0),
        )


# values along an axis no arithmetic shortcut survives
def extremes(size, context):
    """domains of the given size with extreme magnitudes or spacing"""
    big = 10 ** 400
    patterns = [
        [big ** (i % 2) * (i + 1) for i in range(size)],
        [(-1) ** i * big * (i + 1) for i in range(size)],
        [big + i * i for i in range(size)],
        [i ** 5 * 10 ** (17 * i) for i in range(size)],
        [-(3 ** i) * 10 ** 320 + i for i in range(size)],
        [(1 << 53) + i for i in range(size)],
    ]
    result = [tuple(pattern) for pattern in patterns]
    if context == 'fraction':
        result = [fractions(*values) for values in result]
        result += [
            tuple(Fraction(i * i + 1, 10 ** 400) for i in range(size)),
            tuple(Fraction(1, 3 ** (40 * i + 1)) for i in range(size)),
            tuple(Fraction(10 ** (20 * i), 7 ** i) for i in range(size)),
            tuple(1 + Fraction(i * (i + 2), 10 ** 30) for i in range(size)),
        ]
    return result


def shifted(items, amount):
    amount %= len(items)
    return items[amount:] + items[:amount]


SCARCE_PARAMS = {
    'points': [{}], 'segments': [{}], 'boxes': [{}],
    'multipoints': [{}, {'max_size': 1}, {'min_size': 3},
                    {'min_size': 2, 'max_size': 4}],
    'triangular_contours': [{}], 'rectangular_contours': [{}],
    'convex_contours': [{}, {'max_size': 3}, {'min_size': 4},
                        {'min_size': 5, 'max_size': 5}, {'min_size': 8}],
    'concave_contours': [{}, {'max_size': 4}, {'min_size': 5},
                         {'min_size': 6, 'max_size': 7}, {'min_size': 9}],
    'star_contours': [{}, {'max_size': 3}, {'min_size': 4},
                      {'min_size': 5, 'max_size': 7}, {'min_size': 8}],
    'contours': [{}, {'max_size': 3}, {'min_size': 5},
                 {'min_size': 4, 'max_size': 6}, {'min_size': 8}],
    'multisegments': [{}, {'max_size': 2}, {'min_size': 3},
                      {'min_size': 4, 'max_size': 5}],
    'multicontours': [{}, {'max_size': 2}, {'min_contour_size': 4},
                      {'max_contour_size': 3},
                      {'min_size': 3, 'max_size': 4,
                       'max_contour_size': 4}],
    'polygons': [{}, {'max_size': 3}, {'max_size': 5}, {'min_size': 6},
                 {'max_holes_size': 0},
                 {'min_holes_size': 1}, {'min_holes_size': 2},
                 {'min_holes_size': 1, 'max_holes_size': 1, 'max_size': 4,
                  'max_hole_size': 3},
                 {'min_holes_size': 1, 'min_hole_size': 4}],
    'multipolygons': [{}, {'max_size': 2}, {'max_holes_size': 0},
                      {'min_border_size': 4}, {'max_border_size': 3},
                      {'min_holes_size': 1},
                      {'max_size': 2, 'max_border_size': 4,
                       'max_holes_size': 1, 'max_hole_size': 3}],
    'mixes': [{}, {'max_points_size': 0}, {'max_segments_size': 0},
              {'max_polygons_size': 0},
              {'min_points_size': 1, 'min_segments_size': 1,
               'max_polygons_size': 0},
              {'min_polygons_size': 1, 'max_segments_size': 1},
              {'min_points_size': 1, 'min_segments_size': 1,
               'min_polygons_size': 1},
              {'max_points_size': 1, 'max_segments_size': 1,
               'max_polygons_size': 1},
              {'min_polygons_size': 1, 'min_polygon_holes_size': 1}],
}
LOW_PARAMS = {
    'multipoints': [{'min_size': -1}, {'min_size': 0}],
    'convex_contours': [{'min_size': -2}, {'min_size': 0, 'max_size': 3}],
    'concave_contours': [{'min_size': -2}, {'min_size': 3, 'max_size': 4}],
    'star_contours': [{'min_size': -2}, {'min_size': 2, 'max_size': 4}],
    'contours': [{'min_size': -2}, {'min_size': 1, 'max_size': 4}],
    'multisegments': [{'min_size': -1}, {'min_size': 0, 'max_size': 2}],
    'multicontours': [{'min_size': -1}, {'min_contour_size': -1},
                      {'min_size': 0, 'max_size': 2,
                       'min_contour_size': 0, 'max_contour_size': 3}],
    'polygons': [{'min_size': -1}, {'min_holes_size': -1},
                 {'min_hole_size': -1},
                 {'min_size': 0, 'max_size': 4, 'min_holes_size': 0,
                  'max_holes_size': 0, 'min_hole_size': 0,
                  'max_hole_size': 3}],
    'multipolygons': [{'min_size': -1}, {'min_border_size': -1},
                      {'min_holes_size': -1}, {'min_holes_size': -3},
                      {'min_hole_size': -1},
                      {'min_size': 1, 'min_border_size': 1,
                       'min_holes_size': -1, 'min_hole_size': 1}],
    'mixes': [{'min_points_size': -1}, {'min_segments_size': -1},
              {'min_polygons_size': -1}, {'min_polygon_border_size': -1},
              {'min_polygon_holes_size': -1}, {'min_polygon_hole_size': -1},
              {'min_points_size': -2, 'min_segments_size': -2,
               'min_polygons_size': -2, 'min_polygon_holes_size': -2}],
}


def C14(tier):
    T = tier == THOROUGH
    yield from habitual(tier, ALL, (7, 3), (7, 2))
    yield from large(tier, ALL, 2)
    yield from many_bases(tier, ALL, 3)
    # domains of all sizes, starting with ones which are too small
    largest = {
        'multicontours': 10, 'polygons': 9, 'multipolygons': 13, 'mixes': 9,
    }
    for kind, params in SCARCE_PARAMS.items():
        context = natural_context(kind)
        sizes = range(1, largest.get(kind, 6) + 2 * T)
        deviations = 1 if kind in ('mixes', 'multipolygons') else 2
        for size in sizes:
            budgets = full(
                max_deviations=(deviations if size < 10 else 1) + T,
                max_random=0,
            )
            domains = [
                accumulate(uniform(size)), accumulate(wild(size)[0]),
            ] if size > 1 else [(0,)]
            if size > 1:
                # repeated values
                domains.append(domains[0] + domains[0][:size // 2])
            if context == 'fraction':
                domains = [fractions(*values) for values in domains]
            for index, one in enumerate(params):
                for variant in range(len(domains) if T else 1):
                    xs = domains[(index + size + variant) % len(domains)]
                    ys = domains[(index + 2 * size + 1) % len(domains)]
                    yield Scenario(
                        kind, xs, ys, one, context,
                        # each index of repeated values is a choice
                        {**budgets, 'max_deviations': 1 + T}
                        if size > 3 and max(len(xs), len(ys)) > size
                        else budgets,
                    )
                if size > 2:
                    # only one of the axes is scarce
                    wide = accumulate(uniform(size + 8))
                    few = accumulate(uniform(max(size - 3, 1)))
                    if context == 'fraction':
                        wide, few = fractions(*wide), fractions(*few)
                    yield Scenario(
                        kind, wide, few, one, context,
                        full(max_deviations=1 + T, max_random=0),
                    )
                    yield Scenario(
                        kind, few, wide, one, context,
                        full(max_deviations=1 + T, max_random=0),
                    )
    # extreme magnitudes (dependencies divide integers inexactly)
    context = 'fraction'
    for kind, p, params, budgets in REPRESENTATIVES:
        budgets = dict(budgets)
        if not T and 'max_deviations' in budgets:
            budgets['max_deviations'] = min(
                budgets['max_deviations'], 2 if p < 7 else 1
            )
        elif T and 'max_deviations' in budgets:
            budgets['max_deviations'] += 1
        domains = extremes(p, context)
        for index, xs in enumerate(domains):
            for shift in range(1, len(domains)) if T else (1 + index % 4,):
                ys = domains[(index + shift) % len(domains)]
                for one in params:
                    yield Scenario(kind, xs, ys, one, context, budgets, True)
    # domains without limits
    for kind, params in SCARCE_PARAMS.items():
        context = (
            'int' if natural_context(kind) == 'int'
            and 'polygons' not in kind else 'fraction'
        )
        name = 'fractions' if context == 'fraction' else 'integers'
        for one in params + LOW_PARAMS.get(kind, []):
            for ys in (None, name):
                yield Scenario(
                    kind, name, ys, one, context,
                    {'max_order': 1 if T or ys is None else 0,
                     'max_random': 0,
                     'max_deviations': (0 if ys is None else 1) + T}, True,
                )
    # lower bounds below the minimum
    for kind, params in LOW_PARAMS.items():
        context = natural_context(kind)
        size = {'multipolygons': 10, 'multicontours': 7, 'mixes': 7}.get(
            kind, 5
        )
        deviations = 1 if kind == 'mixes' else 2
        values = accumulate(uniform(size))
        if context == 'fraction':
            values = fractions(*values)
        for one in params:
            yield Scenario(
                kind, values, values, one, context,
                full(max_deviations=deviations + T, max_random=0), True,
            )
    # nearly collinear points for the algorithms with removal loops
    for kind in ('star_contours', 'concave_contours', 'polygons'):
        context = 'fraction'
        params = {'min_holes_size': 1} if kind == 'polygons' else {}
        for p in (5, 7, 11) if kind != 'polygons' else (7, 11):
            domains = list(skewed(p, context))
            if not T and p > 5:
                domains = domains[::8 if kind == 'polygons' else 4]
            yield from scenarios(
                kind, domains, params, context, full(max_deviations=2 + 2 * T),
            )
    yield from scenarios(
        'star_contours', regressions(), {}, 'fraction', FULL
    )
