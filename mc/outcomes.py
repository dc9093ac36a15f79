"""
Checks judging sets of everything a strategy can generate.

C13, C21: two ways to ask for the same thing give equal sets;
C18: each admissible size or composition has a witness;
C19: the set equals the one known in advance.
"""
from fractions import Fraction
from itertools import combinations, permutations, product

from . import explorer, geometry, kinds, oracle
from .driver import Report, decode, encode
from .families import Scenario, accumulate, full, uniform, wild
from .geometry import CONTEXTS
from .suites import LOW_PARAMS, REPRESENTATIVES, deepened, natural_context
from .suites import fractions, to_next_prime, to_values, u

CAP = 40000
WITNESS_CAP = 4000


def executions_of(scenario, report, cap=CAP, strategy=None):
    """all executions within budgets, counted"""
    stats = report.stats
    if strategy is None:
        strategy = geometry.build(scenario)
    budgets = {'cap': cap, **scenario.budgets}
    budgets.pop('parts', None)
    try:
        for execution in geometry.executions(strategy, **budgets):
            stats['executions'] += 1
            stats['evaluations'] += 1
            stats[execution.status] += 1
            stats['states'] += execution.fresh + 1
            stats['transitions'] += len(execution.trace)
            if execution.status == 'ok' and stats['ok'] % 16 == 1:
                geometry.validate(
                    scenario, strategy, execution, report,
                    CONTEXTS[scenario.context],
                )
            yield execution
    except explorer.Truncated as error:
        report.truncated.append(f'{scenario}: after {error} executions'[:300])


def outcomes(scenario, report):
    """maps what is generated to choices leading there"""
    context = CONTEXTS[scenario.context]
    result = {}
    for execution in executions_of(scenario, report):
        if execution.status == 'ok':
            plain = kinds.to_plain(scenario.kind, execution.value, context)
            result.setdefault(plain, execution.choices)
        elif execution.status != 'reject':
            result.setdefault(
                ('failure', type(execution.value).__name__),
                execution.choices,
            )
    return result


# -- equal sets ---------------------------------------------------------------

def deeper(scenario):
    budgets = deepened(scenario.budgets, 1)
    budgets['max_collection'] = budgets.get('max_collection', 0)
    return scenario._replace(budgets=budgets)


def compare(left, right, report):
    """returns problem with a geometry only one of strategies generates"""
    left_outcomes, right_outcomes = (
        outcomes(left, report), outcomes(right, report)
    )
    report.stats['distinct'] += len(left_outcomes)
    for one, other, mine, other_mine in (
        (left, right, left_outcomes, right_outcomes),
        (right, left, right_outcomes, left_outcomes),
    ):
        extra = [plain for plain in mine if plain not in other_mine]
        if extra:
            # does the other one need more choices for this?
            wider = outcomes(deeper(other), report)
            extra = [plain for plain in extra if plain not in wider]
        if extra:
            return (
                f'{one.kind}({one.params}, y={one.ys}) generates {extra[0]}, '
                f'but {other.kind}({other.params}, y={other.ys}) does not, '
                f'{len(extra)} such geometries'
            )[:900]
    return None


def clamped(kind, params):
    """the same parameters with the lower bounds raised to the minimums"""
    from .calls import PAIRS
    floors = dict(PAIRS[kind])
    return {
        name: max(value, floors[name[4:]]) if name.startswith('min_')
        else value
        for name, value in params.items()
    }


CLAMP_SIZES = {
    'multipoints': 3, 'multicontours': 7, 'multipolygons': 10, 'mixes': 7,
    'polygons': 7, 'convex_contours': 5, 'contours': 5, 'multisegments': 4,
    'star_contours': 7, 'concave_contours': 7,
}


def low_assignments(kind, thorough):
    """all ways to lower some of the bounds"""
    from .calls import PAIRS
    pairs = PAIRS[kind]
    for name, floor in pairs:
        for low in dict.fromkeys((floor - 1, 0, 1, 2, -1, -3)):
            if low < floor:
                yield {f'min_{name}': low}
                if low >= 0:
                    for high in (floor, floor + 1):
                        yield {f'min_{name}': low, f'max_{name}': high}
    for (first, first_floor), (second, second_floor) in combinations(pairs, 2):
        yield {
            f'min_{first}': first_floor - 1, f'min_{second}': second_floor - 1,
        }
        if thorough:
            yield {f'min_{first}': -1, f'min_{second}': second_floor + 1}
            yield {f'min_{first}': first_floor + 1, f'min_{second}': -1}
    yield {f'min_{name}': -2 for name, _ in pairs}
    yield from LOW_PARAMS.get(kind, [])


def clamping_pairs(tier):
    T = tier == 'thorough'
    for kind, size in CLAMP_SIZES.items():
        context = natural_context(kind)
        domains = [accumulate(uniform(size)), accumulate(wild(size)[4])]
        if T:
            domains.append(accumulate(uniform(size + 1)))
        if context == 'fraction':
            domains = [fractions(*values) for values in domains]
        deviations = {'mixes': 1, 'multipolygons': 1, 'multicontours': 3}.get(
            kind, 2
        )
        budgets = full(max_deviations=deviations + T, max_random=T)
        if kind in ('contours', 'concave_contours', 'star_contours',
                    'polygons'):
            budgets['max_collection'] = 1
        seen = []
        for index, params in enumerate(low_assignments(kind, T)):
            if params in seen:
                continue
            seen.append(params)
            xs = domains[index % len(domains)]
            ys = domains[(index // 2) % len(domains)]
            left = Scenario(kind, xs, ys, params, context, budgets)
            yield left, left._replace(params=clamped(kind, params))


def omission_pairs(tier):
    T = tier == 'thorough'
    for kind, p, params, budgets in REPRESENTATIVES:
        context = natural_context(kind)
        if T:
            budgets = deepened(budgets, 1)
        for gaps in u(p) + wild(p)[4:5 + 2 * T]:
            for variant in (1, 2) if T else (1,):
                xs = to_values(gaps, variant, context)
                # neither sorted nor without repetitions
                xs = xs[len(xs) // 2:] + xs[:len(xs) // 2]
                for one in params:
                    right = Scenario(kind, xs, xs, one, context, budgets)
                    yield right._replace(ys=None), right
    from .suites import SCARCE_PARAMS
    for kind, params in SCARCE_PARAMS.items():
        context = natural_context(kind)
        size = {'multipolygons': 10, 'multicontours': 7, 'mixes': 6,
                'polygons': 7}.get(kind, 5)
        xs = to_values(wild(size)[8], 1, context)
        for one in params:
            right = Scenario(
                kind, xs, xs, one, context,
                full(max_deviations=1 + T, max_random=T),
            )
            yield right._replace(ys=None), right


def comparison_job(argument):
    property_id, pairs = argument
    report = Report()
    for left, right in pairs:
        report.stats['scenarios'] += 1
        try:
            problem = compare(left, right, report)
        except Exception as error:
            problem = f'{type(error).__name__}: {error}'
        if problem is not None:
            report.violation(
                problem,
                {'pair': [encode(dict(item._asdict()))
                          for item in (left, right)]},
            )
            break
        if len(report.samples) < 1:
            report.samples.append(
                f'{left.kind}({left.params}, y={left.ys}) ~ '
                f'{right.kind}({right.params}, y={right.ys}) over {left.xs}'
            )
    return report


def comparison_jobs(property_id, tier):
    pairs = list(
        clamping_pairs(tier) if property_id == 'C13' else omission_pairs(tier)
    )
    count = max(1, min(len(pairs), 200))
    for index in range(count):
        yield property_id, pairs[index::count]


# -- witnesses ----------------------------------------------------------------

def sizes_feature(plain):
    return len(plain)


def polygon_feature(plain):
    return (len(plain[0]), tuple(sorted(len(hole) for hole in plain[1])))


def border_feature(plain):
    return len(plain[0])


def holes_feature(plain):
    return tuple(sorted(len(hole) for hole in plain[1]))


def convexity_feature(plain):
    return len(plain), oracle.is_convex(plain)


def count_and_sizes(plain):
    return tuple(sorted(len(contour) for contour in plain))


def polygons_count(plain):
    return len(plain)


def polygons_holes(plain):
    return tuple(sorted(len(holes) for _, holes in plain))


def polygons_borders(plain):
    return tuple(sorted(len(border) for border, _ in plain))


def mix_counts(plain):
    return tuple(len(component) for component in plain)


def polygons_hole_sizes(plain):
    return tuple(sorted(len(hole) for _, holes in plain for hole in holes))


def mix_points_count(plain):
    return len(plain[0])


def mix_segments_count(plain):
    return len(plain[1])


def mix_polygons_count(plain):
    return len(plain[2])


def mix_borders(plain):
    return polygons_borders(plain[2])


def mix_holes(plain):
    return polygons_holes(plain[2])


def mix_hole_sizes(plain):
    return polygons_hole_sizes(plain[2])


def mix_bordered(plain):
    return (bool(plain[0]), bool(plain[1]), polygons_borders(plain[2]))


def mix_holed(plain):
    return (bool(plain[0]), bool(plain[1]), polygons_hole_sizes(plain[2]))


def mix_presence(plain):
    return tuple(bool(component) for component in plain)


def mix_parts(plain):
    return tuple(min(len(component), 2) for component in plain)


def mix_axis(plain):
    """axes along which components are separated, with who goes first"""
    return _separations(
        [*(((point,)) for point in plain[0]), *plain[1],
         *(border for border, _ in plain[2])],
        [*('p' for _ in plain[0]), *('s' for _ in plain[1]),
         *('P' for _ in plain[2])],
    )


def polygons_axis(plain):
    return _separations(
        [border for border, _ in plain], [''] * len(plain)
    )


def _separations(parts, labels):
    result = []
    for axis in (0, 1):
        ranges = sorted(
            (min(point[axis] for point in part),
             max(point[axis] for point in part), label)
            for part, label in zip(parts, labels)
        )
        if all(left[1] <= right[0] for left, right in
               zip(ranges, ranges[1:])):
            order = ''.join(label for _, _, label in ranges)
            result.append(('xy'[axis], order))
    return tuple(result)


FEATURES = {
    function.__name__: function for function in (
        sizes_feature, polygon_feature, border_feature, holes_feature,
        convexity_feature, count_and_sizes, polygons_count, polygons_holes,
        polygons_borders, mix_counts, mix_presence, mix_parts, mix_axis,
        polygons_axis, polygons_hole_sizes, mix_points_count,
        mix_segments_count, mix_polygons_count, mix_borders, mix_holes,
        mix_hole_sizes, mix_bordered, mix_holed,
    )
}


def missing_targets(scenario, feature_name, targets, report):
    feature = FEATURES[feature_name]
    context = CONTEXTS[scenario.context]
    remaining = set(targets)
    notes = len(report.truncated)
    for tried, cap in attempts(scenario):
        for execution in executions_of(tried, report, cap=cap):
            if execution.status != 'ok':
                continue
            plain = kinds.to_plain(scenario.kind, execution.value, context)
            value = feature(plain)
            if value in remaining:
                remaining.discard(value)
                report.stats['distinct'] += 1
                if len(report.samples) < 2:
                    report.samples.append(
                        f'{scenario.kind}({scenario.params}) {feature_name} '
                        f'{value}: choices {execution.choices} -> {plain}'
                        [:500]
                    )
                if not remaining:
                    # all of them are found, the rest is of no interest
                    del report.truncated[notes:]
                    return remaining
    return remaining


def attempts(scenario):
    for budgets, cap in widening(scenario.budgets):
        yield scenario._replace(budgets=budgets), cap
    # not to depend on the order of questions
    for extra in (0, 1, 2, 4):
        richer = scenario._replace(
            xs=extended(scenario.xs, extra), ys=extended(scenario.ys, extra)
        )
        for habits in ((7, 4),) if not extra else ((7, 3), (11, 3)):
            yield richer._replace(budgets={'habits': habits}), None
    yield scenario._replace(budgets={'habits': (11, 4)}), None


def extended(values, amount):
    return (
        values
        if values is None
        else (*values, *(max(values) + 1 + index for index in range(amount)))
    )


def widening(budgets):
    """shallow witnesses are found wherever they are"""
    previous = None
    for level in range(1, 5):
        current = {
            name: (
                value if value is None
                else min(value, level - (name != 'max_deviations'))
            )
            for name, value in budgets.items()
        }
        if current != previous:
            yield current, WITNESS_CAP
        previous = current
        if level == 1:
            # various, but not extreme
            yield {'habits': (7, 2)}, None
            yield {'habits': (7, 3)}, None
    yield {'habits': (11, 3)}, None
    budgets = deepened(budgets, 1)
    if budgets.get('max_collection') is not None:
        budgets['max_collection'] += 1
    yield budgets, 3 * WITNESS_CAP


def witness_cases(tier):
    """yields (scenario, name of a feature, values it has to take)"""
    T = tier == 'thorough'
    i, f = 'int', 'fraction'

    def domain(size, context, variant=0):
        values = to_values(
            (u(size) + wild(size))[variant % (1 + len(wild(size)))], variant,
            context,
        )
        return values

    def case(kind, size, params, feature, targets, context=None, variant=0,
             **budgets):
        context = context or natural_context(kind)
        budgets = {'max_deviations': 2, 'max_random': 0, **budgets}
        if not budgets.pop('free', False):
            budgets['max_collection'] = budgets.get('max_collection', 0)
        return (
            Scenario(
                kind, domain(size, context, variant),
                domain(size, context, variant and variant + 1), params,
                context, budgets,
            ), feature, list(targets),
        )

    # sizes
    for low, high in ((1, 6), (2, 2), (3, 5), (0, 4)):
        yield case(
            'multipoints', 4, {'min_size': low, 'max_size': high},
            'sizes_feature', range(max(low, 1), high + 1), free=True,
            max_deviations=12, max_order=2,
        )
    yield case('multipoints', 4, {}, 'sizes_feature', range(1, 7),
               free=True, max_deviations=12, max_order=2)
    for low, high in ((2, 2), (2, 5), (3, 4), (4, 6), (5, 5)):
        yield case(
            'multisegments', 7, {'min_size': low, 'max_size': high},
            'sizes_feature', range(low, high + 1), max_collection=1,
        )
    yield case('multisegments', 7, {}, 'sizes_feature', range(2, 7),
               max_collection=1)
    top = 11 if T else 9
    for variant in (0, 1, 5):
        for low in range(3, top):
            for kind in ('contours', 'star_contours', 'convex_contours',
                         'concave_contours'):
                if low < 4 and kind == 'concave_contours' or (
                    # vertices are thinned out by the removal loop
                    low > 6 and kind == 'star_contours'
                ):
                    continue
                size = geometry_size(kind, low)
                for params in ({'min_size': low, 'max_size': low},
                               {'min_size': low}):
                    yield case(
                        kind, size, params, 'sizes_feature', [low],
                        variant=variant, max_collection=1, max_random=3,
                        max_deviations=3,
                    )
    # all sizes under an upper bound and without it
    for kind in ('contours', 'star_contours', 'convex_contours',
                 'concave_contours'):
        least = 3 + (kind == 'concave_contours')
        for params, size in (({}, 7), ({}, 11), ({'max_size': 5}, 7),
                             ({'max_size': 7}, 7), ({'max_size': 7}, 11)):
            most = params.get('max_size', 7)
            if kind in ('contours', 'convex_contours'):
                # larger ones take many draws of random numbers
                most = 5
            for target in range(least, most + 1):
                yield case(kind, size, params, 'sizes_feature', [target],
                           max_collection=1, max_random=3, max_deviations=3)
    for size in (4, 5, 6, 7):
        yield case(
            'contours', 7,
            {'min_size': size, 'max_size': size}, 'convexity_feature',
            [(size, True), (size, False)],
            max_random=3 * (size > 4), max_collection=1, max_deviations=3,
        )
    # numbers and sizes of contours
    yield case('multicontours', 11, {}, 'count_and_sizes',
               [(3, 3), (3, 4), (4, 4), (3, 3, 3), (3, 3, 4), (3, 5)],
               max_deviations=3)
    yield case('multicontours', 13, {'min_size': 3}, 'polygons_count',
               [3, 4])
    yield case('multicontours', 13, {'max_size': 4}, 'polygons_count',
               [2, 3, 4])
    yield case('multicontours', 13, {'min_contour_size': 4},
               'count_and_sizes', [(4, 4), (4, 5), (4, 4, 4)],
               max_deviations=3)
    # borders and holes
    yield case('polygons', 7, {}, 'border_feature', [3, 4, 5, 6, 7],
               max_collection=1, max_deviations=3)
    yield case('polygons', 11, {}, 'border_feature', range(5, 12),
               max_deviations=3)
    yield case('polygons', 11, {}, 'holes_feature', [(), (3,), (4,)],
               max_deviations=3)
    yield case('polygons', 11, {'min_holes_size': 1}, 'holes_feature',
               [(3,), (4,)], max_deviations=3)
    yield case('polygons', 11, {'max_holes_size': 0}, 'holes_feature', [()])
    for count in (1, 2):
        yield case('polygons', 13, {'min_holes_size': count,
                                    'max_holes_size': count},
                   'holes_feature',
                   [(3,) * count, (3,) * (count - 1) + (4,)],
                   max_deviations=3)
    yield case('polygons', 13, {'max_holes_size': 2}, 'holes_feature',
               [(), (3,), (3, 3)], max_deviations=3)
    yield case('polygons', 11, {'min_hole_size': 4, 'min_holes_size': 1},
               'holes_feature', [(4,), (5,)], max_deviations=3)
    yield case('polygons', 11, {'min_size': 5, 'max_size': 8},
               'border_feature', range(5, 9), max_deviations=3)
    # multipolygons
    yield case('multipolygons', 15, {}, 'polygons_count', [2, 3],
               max_deviations=3)
    yield case('multipolygons', 15, {'max_holes_size': 0}, 'polygons_count',
               [2, 3])
    yield case('multipolygons', 15, {'min_size': 2, 'max_size': 2},
               'polygons_holes', [(0, 0), (0, 1), (1, 1)], max_deviations=4)
    yield case('multipolygons', 14, {'min_holes_size': 1}, 'polygons_holes',
               [(1, 1)])
    yield case('multipolygons', 14, {'min_border_size': 4},
               'polygons_borders', [(4, 4), (4, 5), (5, 5)])
    for variant in (0, 1):
        yield case('multipolygons', 10, {'max_size': 2}, 'polygons_axis',
                   [(('x', ''),), (('y', ''),)], variant=variant,
                   max_deviations=3)
        yield case('multipolygons', 14, {'min_holes_size': 1},
                   'polygons_axis', [(('x', ''),), (('y', ''),)],
                   variant=variant, max_deviations=3)
    # mixes
    for size, params, presence in (
        (9, {}, (True, True, False)), (7, {}, (True, False, True)),
        (9, {'max_points_size': 0}, (False, True, True)),
        (9, {}, (True, True, True)),
    ):
        yield case('mixes', size, params, 'mix_presence', [presence],
                   max_deviations=3)
    for parts in ((1, 1, 0), (1, 2, 0), (2, 1, 0), (2, 2, 0)):
        yield case('mixes', 7, {'max_polygons_size': 0,
                                'max_points_size': 3,
                                'max_segments_size': 2}, 'mix_parts',
                   [parts], max_deviations=3)
    yield case('mixes', 7, {'max_segments_size': 0, 'max_points_size': 2},
               'mix_parts', [(1, 0, 1), (2, 0, 1)], max_deviations=3)
    yield case('mixes', 11, {'max_segments_size': 0, 'max_points_size': 1,
                             'min_polygons_size': 2,
                             'max_polygon_holes_size': 0},
               'mix_parts', [(1, 0, 2)], max_deviations=3)
    yield case('mixes', 9, {'max_points_size': 0, 'max_segments_size': 2},
               'mix_parts', [(0, 1, 1), (0, 2, 1)], max_deviations=3)
    yield case('mixes', 6, {'max_polygons_size': 0, 'min_segments_size': 1,
                            'max_segments_size': 2, 'min_points_size': 1,
                            'max_points_size': 2},
               'mix_counts', [(1, 1, 0), (2, 1, 0), (1, 2, 0)],
               max_deviations=3)
    yield case('mixes', 7, {'max_segments_size': 0, 'max_points_size': 1,
                            'max_polygons_size': 1}, 'mix_axis',
               [(('x', 'pP'),), (('x', 'Pp'),), (('y', 'pP'),),
                (('y', 'Pp'),)], max_deviations=4)
    yield case('mixes', 5, {'max_polygons_size': 0, 'max_points_size': 1,
                            'max_segments_size': 1}, 'mix_axis',
               [(('x', 'ps'),), (('x', 'sp'),), (('y', 'ps'),),
                (('y', 'sp'),)], max_deviations=5)
    yield case('mixes', 7, {'max_points_size': 0, 'max_segments_size': 1,
                            'max_polygons_size': 1}, 'mix_axis',
               [(('x', 'sP'),), (('x', 'Ps'),), (('y', 'sP'),),
                (('y', 'Ps'),)], max_deviations=4)


    # each bound is attained and so is everything in between
    for low, high in ((2, 3), (3, 4), (2, 4)):
        yield case(
            'multicontours', to_next_prime(3 * high),
            {'min_size': low, 'max_size': high}, 'polygons_count',
            range(low, high + 1), max_collection=1,
        )
        yield case(
            'multipolygons', 5 * high,
            {'min_size': low, 'max_size': high, 'max_holes_size': 0},
            'polygons_count', range(low, high + 1), max_collection=1,
        )
    for low, high in ((3, 4), (4, 5), (3, 5)):
        pairs_ = [
            (first, second)
            for first in range(low, high + 1)
            for second in range(first, high + 1)
        ]
        yield case(
            'multicontours', to_next_prime(2 * high + 1),
            {'min_contour_size': low, 'max_contour_size': high},
            'count_and_sizes', pairs_, max_deviations=4,
        )
        yield case(
            'polygons', 11, {'min_size': low, 'max_size': high},
            'border_feature', range(low, high + 1), max_collection=1,
            max_deviations=3,
        )
        yield case(
            'polygons', 13, {'min_hole_size': low, 'max_hole_size': high,
                             'min_holes_size': 1, 'max_holes_size': 1},
            'holes_feature', [(size,) for size in range(low, high + 1)],
            max_deviations=3,
        )
        yield case(
            'multipolygons', 14,
            {'min_border_size': low, 'max_border_size': high,
             'max_size': 2, 'max_holes_size': 0}, 'polygons_borders', pairs_,
            max_deviations=4,
        )
        yield case(
            'mixes', 9, {'min_polygon_border_size': low,
                          'max_polygon_border_size': high,
                          'min_polygons_size': 1, 'max_polygons_size': 1,
                          'max_points_size': 1, 'max_segments_size': 0,
                          'max_polygon_holes_size': 0},
            'mix_borders', [(size,) for size in range(low, high + 1)],
            max_deviations=3, max_collection=1,
        )
    for low, high in ((0, 1), (0, 2), (1, 2)):
        yield case(
            'polygons', 13, {'min_holes_size': low, 'max_holes_size': high},
            'holes_feature', [(3,) * count for count in range(low, high + 1)],
            max_deviations=3, max_collection=1,
        )
    yield case('multipolygons', 16, {'max_size': 2, 'max_holes_size': 1},
               'polygons_holes', [(0, 0), (0, 1), (1, 1)], max_deviations=3)
    yield case('multipolygons', 23, {'max_size': 2, 'min_holes_size': 1,
                                     'max_hole_size': 4},
               'polygons_hole_sizes', [(3, 3), (3, 4)], max_deviations=3)
    yield case('mixes', 14, {'min_polygons_size': 1, 'max_polygons_size': 1,
                             'max_points_size': 1, 'max_segments_size': 0,
                             'max_polygon_holes_size': 1},
               'mix_holes', [(0,), (1,)], max_deviations=3)
    yield case('mixes', 15, {'min_polygons_size': 1, 'max_polygons_size': 1,
                             'max_points_size': 1, 'max_segments_size': 0,
                             'min_polygon_holes_size': 1,
                             'max_polygon_hole_size': 4},
               'mix_hole_sizes', [(3,), (4,)], max_deviations=3)
    for low, high in ((0, 1), (0, 2), (1, 2), (1, 3)):
        yield case(
            'mixes', 9, {'min_points_size': low, 'max_points_size': high,
                         'max_polygons_size': 1, 'max_segments_size': 1},
            'mix_points_count', range(low, high + 1), max_deviations=3,
            max_collection=1,
        )
        yield case(
            'mixes', 11, {'min_segments_size': low, 'max_segments_size': high,
                          'max_polygons_size': 1, 'max_points_size': 1},
            'mix_segments_count', range(low, high + 1), max_deviations=3,
            max_collection=1,
        )
        yield case(
            'mixes', 5 * high + 3,
            {'min_polygons_size': low, 'max_polygons_size': high,
             'max_points_size': 1, 'max_segments_size': 1,
             'max_polygon_holes_size': 0},
            'mix_polygons_count', range(low, high + 1), max_deviations=3,
            max_collection=1,
        )
    # the same for each pair of components and for all of them
    few = {'max_points_size': 1, 'max_segments_size': 1,
           'max_polygons_size': 1}
    for absent, presences in (
        ({}, ((1, 0), (0, 1), (1, 1))), ({'max_segments_size': 0}, ((1, 0),)),
        ({'max_points_size': 0}, ((0, 1),)),
    ):
        presences = [tuple(map(bool, presence)) for presence in presences]
        for low, high in ((3, 3), (4, 4)) if not absent else ((3, 4), (4, 4)):
            yield case(
                'mixes', 9, {
                    **few, **absent, 'max_polygon_holes_size': 0,
                    'min_polygon_border_size': low,
                    'max_polygon_border_size': high,
                }, 'mix_bordered',
                [(*presence, (size,)) for presence in presences
                 for size in range(low, high + 1)], max_deviations=3,
                max_collection=1,
            )
        for low, high in ((3, 3), (3, 4), (4, 4)):
            yield case(
                'mixes', 14, {
                    **few, **absent, 'max_polygon_holes_size': 1,
                    'min_polygon_hole_size': low,
                    'max_polygon_hole_size': high,
                }, 'mix_holed',
                [(*presence, sizes) for presence in presences
                 for sizes in ((), *((size,)
                                     for size in range(low, high + 1)))],
                max_deviations=3,
            )
        yield case(
            'mixes', 17, {
                **few, **absent, 'min_polygon_holes_size': 1,
                'max_polygon_holes_size': 2,
                'max_polygon_hole_size': 3,
            }, 'mix_holed',
            [(*presence, sizes) for presence in presences
             for sizes in ((3,), (3, 3)) if absent or len(sizes) < 2],
            max_deviations=3,
        )
    for absent, counts in (
        ({}, [(1, 1, 0), (2, 1, 0), (1, 2, 0), (2, 2, 0), (1, 0, 1),
              (2, 0, 1), (0, 1, 1), (0, 2, 1), (1, 1, 1)]),
        ({'max_segments_size': 0}, [(1, 0, 1), (2, 0, 1)]),
        ({'max_points_size': 0}, [(0, 1, 1), (0, 2, 1)]),
        ({'max_polygons_size': 0}, [(1, 1, 0), (2, 1, 0), (1, 2, 0),
                                    (2, 2, 0)]),
    ):
        yield case(
            'mixes', 9, {
                'max_points_size': 2, 'max_segments_size': 2,
                'max_polygons_size': 1, 'max_polygon_holes_size': 0, **absent,
            }, 'mix_counts', counts, max_deviations=3,
        )
    for absent, counts in (
        ({}, [(1, 0, 1), (1, 0, 2), (0, 1, 1), (0, 1, 2)]),
        ({'max_segments_size': 0}, [(1, 0, 1), (1, 0, 2)]),
        ({'max_points_size': 0}, [(0, 1, 1), (0, 1, 2)]),
    ):
        yield case(
            'mixes', 12, {
                'max_points_size': 1, 'max_segments_size': 1,
                'max_polygons_size': 2, 'max_polygon_holes_size': 0, **absent,
            }, 'mix_counts', counts, max_deviations=3,
        )


def geometry_size(kind, size):
    """prime number of points enough for the size"""
    return max(7, to_next_prime(size + (3 if kind == 'star_contours' else 1)))


def witness_job(argument):
    property_id, cases = argument
    report = Report()
    for scenario, feature, targets in cases:
        report.stats['scenarios'] += 1
        try:
            missing = missing_targets(scenario, feature, targets, report)
        except Exception as error:
            missing = [f'{type(error).__name__}: {error}']
        if missing:
            report.violation(
                f'{scenario.kind}({scenario.params}) over x={scenario.xs}, '
                f'y={scenario.ys} never gives {feature} '
                f'{sorted(missing, key=repr)}',
                {'witness': [encode(dict(scenario._asdict())), feature,
                             [encode(item) for item in targets]]},
            )
            break
    return report


def witness_jobs(property_id, tier):
    for case in witness_cases(tier):
        yield property_id, [case]


# -- sets known in advance ----------------------------------------------------

def all_points(xs, ys):
    return set(product(xs, ys))


def all_segments(xs, ys):
    return set(permutations(all_points(xs, ys), 2))


def all_boxes(xs, ys):
    return {
        (*sorted(x), *sorted(y))
        for x in combinations(set(xs), 2) for y in combinations(set(ys), 2)
    }


def all_rectangles(xs, ys):
    return {
        rotated(((a, c), (b, c), (b, d), (a, d))) for a, b, c, d in all_boxes(xs, ys)
    }


def rotated(vertices):
    """starts with the least vertex"""
    index = vertices.index(min(vertices))
    return vertices[index:] + vertices[:index]


def all_triangles(xs, ys):
    return {
        rotated(triple) for triple in permutations(all_points(xs, ys), 3)
        if oracle.turn(*triple) > 0
    }


def all_multipoints(xs, ys, low, high):
    points = all_points(xs, ys)
    return {
        sequence for size in range(low, high + 1)
        for sequence in permutations(points, size)
    }


def all_multisegments(xs, ys, low, high):
    segments = all_segments(xs, ys)
    return {
        family for size in range(low, high + 1)
        for family in product(segments, repeat=size)
        if oracle.segments_family(family) is None
    }


def exact_cases(tier):
    """yields (scenario, reference name, its arguments)"""
    T = tier == 'thorough'
    domains = [
        (0,), (0, 1), (0, 1, 2), (3, -1, 0), (0, 2, 3), (5, 5), (0, 1, 0),
        (-7, 7, 0, 1), (0, 1, 2, 3, 4),
    ]
    unlimited = {'max_order': 8}
    for xs, ys in product(domains, repeat=2):
        small = len(xs) <= 4 and len(ys) <= 4
        yield Scenario('points', xs, ys, {}, 'int', unlimited), 'points'
        yield Scenario('segments', xs, ys, {}, 'int', unlimited), 'segments'
        yield Scenario('boxes', xs, ys, {}, 'int', unlimited), 'boxes'
        yield (
            Scenario('rectangular_contours', xs, ys, {}, 'int', unlimited),
            'rectangles',
        )
        if len(xs) * len(ys) <= (12 if T else 9):
            yield (
                Scenario('triangular_contours', xs, ys, {}, 'int', unlimited),
                'triangles',
            )
        if len(xs) * len(ys) <= 6:
            yield (
                Scenario('convex_contours', xs, ys, {'max_size': 3}, 'int',
                         unlimited), 'triangles',
            )
        if len(xs) * len(ys) <= 6 and small:
            for low, high in ((1, 1), (1, 2), (2, 2), (0, 1), (2, 3)):
                if high > 2 and len(xs) * len(ys) > 4 + 2 * T:
                    continue
                yield (
                    Scenario('multipoints', xs, ys,
                             {'min_size': low, 'max_size': high}, 'int',
                             unlimited),
                    ('multipoints', max(low, 1), high),
                )
    for xs, ys in (
        ((0, 1, 2), (0, 1, 2)), ((0, 2, 3), (5, 1, -1)),
    ) + (((0, 1, 2, 3), (0, 1, 2)),) * T:
        yield (
            Scenario('multisegments', fractions(*xs), fractions(*ys),
                     {'min_size': 2, 'max_size': 2}, 'fraction',
                     {'max_order': 8}),
            ('multisegments', 2, 2),
        )


REFERENCES = {
    'points': all_points, 'segments': all_segments, 'boxes': all_boxes,
    'rectangles': all_rectangles, 'triangles': all_triangles,
    'multipoints': all_multipoints, 'multisegments': all_multisegments,
}


def exact_problem(scenario, reference, report):
    name, *arguments = (
        reference if isinstance(reference, (tuple, list)) else (reference,)
    )
    found = {}
    context = CONTEXTS[scenario.context]
    for execution in executions_of(scenario, report):
        if execution.status == 'ok':
            plain = kinds.to_plain(scenario.kind, execution.value, context)
            if name == 'triangles':
                if len(plain) != 3:
                    return f'not a triangle: {plain}'
                plain = rotated(plain)
            elif name == 'rectangles':
                plain = rotated(plain)
            found.setdefault(plain, execution.choices)
        elif execution.status != 'reject' and not geometry.is_refusal(
            execution.value, False
        ):
            return f'{type(execution.value).__name__}: {execution.value}'
    known = REFERENCES[name](scenario.xs, scenario.ys, *arguments)
    report.stats['distinct'] += len(known)
    extra = [plain for plain in found if plain not in known]
    if extra:
        return (
            f'generated {extra[0]}, which is not admissible, by choices '
            f'{found[extra[0]]}'
        )
    missing = [plain for plain in known if plain not in found]
    if missing:
        return (
            f'{min(missing)} is never generated, {len(missing)} such '
            'geometries'
        )
    return None


def exact_job(argument):
    property_id, cases = argument
    report = Report()
    for scenario, reference in cases:
        report.stats['scenarios'] += 1
        try:
            problem = exact_problem(scenario, reference, report)
        except kinds.Malformed as error:
            problem = f'malformed: {error}'
        if problem is not None:
            report.violation(
                f'{scenario.kind}({scenario.params}) over x={scenario.xs}, '
                f'y={scenario.ys}: {problem}',
                {'exact': [encode(dict(scenario._asdict())),
                           encode(reference)]},
            )
            break
        if len(report.samples) < 1:
            report.samples.append(
                f'{scenario.kind}({scenario.params}) over x={scenario.xs}, '
                f'y={scenario.ys}: exactly {reference}'
            )
    return report


def exact_jobs(property_id, tier):
    cases = list(exact_cases(tier))
    for index in range(64):
        yield property_id, cases[index::64]


# -- replay -------------------------------------------------------------------

def _scenario(content):
    return Scenario(**decode(content))


def replay(content):
    report = Report()
    if 'pair' in content:
        return compare(*map(_scenario, content['pair']), report)
    if 'witness' in content:
        scenario, feature, targets = content['witness']
        missing = missing_targets(
            _scenario(scenario), feature, [decode(item) for item in targets],
            report,
        )
        return f'missing {missing}' if missing else None
    scenario, reference = content['exact']
    return exact_problem(_scenario(scenario), decode(reference), report)
