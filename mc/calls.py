"""
C12, C13: every combination of size bounds against an explicit model.

The model is the decision table of `expected`: per pair of bounds a state
(floor, lower, upper), per call the product of the states of its pairs.  The
whole bounded space of calls is enumerated and each call is made against the
real functions.
"""
import re
import warnings
from itertools import combinations, product

from hypothesis import strategies as st
from hypothesis.errors import HypothesisWarning
from hypothesis.strategies import SearchStrategy

from hypothesis_geometry import planar

from . import kinds
from .driver import Report

# kind -> pairs of (suffix of names of bounds, the least meaningful value)
PAIRS = {
    'multipoints': [('size', 1)],
    'multisegments': [('size', 2)],
    'contours': [('size', 3)],
    'convex_contours': [('size', 3)],
    'concave_contours': [('size', 4)],
    'star_contours': [('size', 3)],
    'multicontours': [('size', 2), ('contour_size', 3)],
    'polygons': [('size', 3), ('holes_size', 0), ('hole_size', 3)],
    'multipolygons': [
        ('size', 2), ('border_size', 3), ('holes_size', 0), ('hole_size', 3),
    ],
    'mixes': [
        ('points_size', 0), ('segments_size', 0), ('polygons_size', 0),
        ('polygon_border_size', 3), ('polygon_holes_size', 0),
        ('polygon_hole_size', 3),
    ],
}
ABSENT = 'absent'


def is_contradictory(floor, low, high):
    low = floor if low == ABSENT else low
    if high is None or high == ABSENT:
        return False
    return high < floor or low > high or low < 0


def is_too_low(floor, low):
    return low != ABSENT and low < floor


def expected(kind, bounds):
    """returns (is rejected, names to blame, names to warn about)"""
    pairs = PAIRS[kind]
    blamed = [
        name for (name, floor), (low, high) in zip(pairs, bounds)
        if is_contradictory(floor, low, high)
    ]
    if blamed:
        return True, blamed, None
    if kind == 'mixes' and sum(
        high is None or high == ABSENT or high > 0 for _, high in bounds[:3]
    ) < 2:
        return True, [], None
    return False, [], [
        f'min_{name}' for (name, floor), (low, _) in zip(pairs, bounds)
        if is_too_low(floor, low)
    ]


def to_params(kind, bounds):
    result = {}
    for (name, _), (low, high) in zip(PAIRS[kind], bounds):
        if low != ABSENT:
            result[f'min_{name}'] = low
        if high != ABSENT:
            result[f'max_{name}'] = high
    return result


def full_grid(floor, thorough):
    lows = [ABSENT, *range(-2, floor + 4 + 2 * thorough), 10 ** 6]
    highs = [ABSENT, None, *range(-2, floor + 4 + 2 * thorough), 10 ** 6]
    return [
        *product(lows, highs), (-10 ** 30, None), (-10 ** 30, 5),
        (0, 10 ** 30),
    ]


def small_grid(floor):
    """one pair of each class and of its frontiers"""
    result = [
        (floor, None), (floor - 1, None), (-1, None), (floor + 2, None),
        (ABSENT, ABSENT), (ABSENT, floor), (floor, floor),
        (floor + 1, floor + 1), (floor, floor - 1), (floor + 1, floor),
        (-1, floor), (-1, -1), (floor - 1, floor + 1), (0, floor),
        (floor - 2, floor - 1), (ABSENT, 0),
    ]
    return list(dict.fromkeys(result))


def tiny_grid(floor):
    result = [
        (floor, None), (-1, None), (floor - 1, floor + 1),
        (floor + 1, floor), (ABSENT, 0),
    ]
    return list(dict.fromkeys(result))


def calls(kind, thorough):
    """all calls for the kind, each one is a tuple of pairs of bounds"""
    pairs = PAIRS[kind]
    defaults = [(ABSENT, ABSENT)] * len(pairs)
    seen = set()

    def emit(bounds):
        bounds = tuple(bounds)
        if bounds not in seen:
            seen.add(bounds)
            yield bounds

    # single pairs, exhaustively
    for index, (_, floor) in enumerate(pairs):
        for pair in full_grid(floor, thorough):
            bounds = list(defaults)
            bounds[index] = pair
            yield from emit(bounds)
    # couples of pairs
    for first, second in combinations(range(len(pairs)), 2):
        to_grid = (
            full_grid if thorough else lambda floor, _: small_grid(floor)
        )
        for left in to_grid(pairs[first][1], False):
            for right in to_grid(pairs[second][1], False):
                bounds = list(defaults)
                bounds[first], bounds[second] = left, right
                yield from emit(bounds)
    # everything at once
    if len(pairs) > 2:
        to_grid = small_grid if len(pairs) == 3 else tiny_grid
        for bounds in product(*[to_grid(floor) for _, floor in pairs]):
            yield from emit(bounds)


def attempt(kind, params):
    """returns (result or error, warnings)"""
    coordinates = st.sampled_from([0, 1, 2])
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        try:
            result = getattr(planar, kind)(
                coordinates, context=kinds.INT_CONTEXT, **params
            )
        except Exception as error:
            result = error
    return result, [
        str(item.message) for item in caught
        if issubclass(item.category, HypothesisWarning)
    ]


def mentions(text, name):
    return re.search(rf'(?<!\w){name}(?!\w)', text) is not None


def judge(property_id, kind, bounds):
    """returns problem or None"""
    rejected, blamed, low_names = expected(kind, bounds)
    params = to_params(kind, bounds)
    result, messages = attempt(kind, params)
    if property_id == 'C12':
        if rejected:
            if not isinstance(result, ValueError):
                return f'no ValueError, but {result!r}'[:300]
            if blamed and not any(
                mentions(str(result), f'{edge}_{name}')
                for name in blamed
                for edge in ('min', 'max')
            ):
                return f'ValueError blames something else: {result}'
            return None
        if not isinstance(result, SearchStrategy):
            return f'no strategy, but {result!r}'[:300]
        return None
    if rejected or isinstance(result, Exception):
        # matters of C12
        return None
    if len(messages) != len(low_names):
        return f'expected warnings about {low_names}, got {messages}'
    for name in low_names:
        if sum(mentions(message, name) for message in messages) != 1:
            return f'expected one warning about `{name}`, got {messages}'
    return None


def job(argument):
    property_id, kind, share = argument
    report = Report()
    stats = report.stats
    for bounds in share:
        stats['evaluations'] += 1
        stats['states'] += len(bounds) + 1
        stats['transitions'] += len(bounds)
        rejected, _, low_names = expected(kind, bounds)
        stats['rejected' if rejected else 'accepted'] += 1
        if property_id == 'C12' or not rejected:
            stats['distinct'] += bool(rejected or low_names)
        problem = judge(property_id, kind, bounds)
        stats['validated'] += 1
        if problem is not None:
            report.violation(
                f'{kind}({to_params(kind, bounds)}): {problem}',
                {'call': [kind, list(map(list, bounds))]},
            )
            if len(report.violations) >= 3:
                break
        elif len(report.samples) < 1:
            report.samples.append(
                f'{kind}({to_params(kind, bounds)}): '
                f'{"rejected" if rejected else f"warnings {low_names}"}'
            )
    return report


def jobs(property_id, tier):
    for kind in PAIRS:
        items = list(calls(kind, tier == 'thorough'))
        for start in range(0, len(items), 3000):
            yield (property_id, kind, items[start:start + 3000])


def replay(content):
    kind, bounds = content['call']
    bounds = tuple(tuple(pair) for pair in bounds)
    return judge(content['property'], kind, bounds)
