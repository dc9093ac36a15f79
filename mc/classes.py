"""
C20: every part of a generated geometry is built with the class of the context
the strategy was created with, however many contexts are in use.
"""
import math
from fractions import Fraction
from functools import total_ordering

from ground.context import Context
from hypothesis_geometry import planar

from . import explorer, geometry, kinds
from .driver import Report, decode, encode
from .families import Scenario, to_values, wild
from .suites import (
    REPRESENTATIVES, SCARCE_PARAMS, deepened, natural_context, u,
)

NAMES = (
    'box', 'contour', 'empty', 'mix', 'multipoint', 'multipolygon',
    'multisegment', 'point', 'polygon', 'segment',
)


def derived(prefix):
    """classes derived from the default ones"""
    default = kinds.INT_CONTEXT
    return {
        f'{name}_cls': type(
            prefix + name.title(), (getattr(default, f'{name}_cls'),),
            {'__slots__': ()},
        )
        for name in NAMES
    }


def standalone(name, *fields):
    """class which has nothing in common with the default one"""

    def __new__(cls, *args):
        assert len(args) == len(fields), (cls, args)
        self = object.__new__(cls)
        for field, value in zip(fields, args):
            setattr(self, field, value)
        return self

    def key(self):
        return tuple(getattr(self, field) for field in fields)

    def __eq__(self, other):
        return type(self) is type(other) and key(self) == key(other)

    def __lt__(self, other):
        assert type(self) is type(other), (self, other)
        return key(self) < key(other)

    def __hash__(self):
        return hash((name, key(self)))

    result = type(name, (), {
        '__slots__': fields, '__new__': __new__, '__eq__': __eq__,
        '__lt__': __lt__, '__hash__': __hash__,
        '__repr__': lambda self: f'{name}{key(self)}',
    })
    return total_ordering(result)


def standalones():
    return {
        f'{name}_cls': standalone(f'Own{name.title()}', *fields)
        for name, fields in {
            'box': ('min_x', 'max_x', 'min_y', 'max_y'),
            'contour': ('vertices',),
            'empty': (),
            'mix': ('discrete', 'linear', 'shaped'),
            'multipoint': ('points',),
            'multipolygon': ('polygons',),
            'multisegment': ('segments',),
            'point': ('x', 'y'),
            'polygon': ('border', 'holes'),
            'segment': ('start', 'end'),
        }.items()
    }


FACTORIES = {'int': int, 'fraction': Fraction}
STYLES = {
    'first': derived('First'), 'second': derived('Second'),
    'own': standalones(),
    # only some of the classes are replaced
    'points': {'point_cls': derived('Third')['point_cls']},
    'parts': {
        key: value for key, value in derived('Fourth').items()
        if key != 'point_cls'
    },
    'default': {},
}
CONTEXTS = {
    (style, coordinates): Context(
        coordinate_factory=factory, sqrt=math.sqrt, **classes
    )
    for style, classes in STYLES.items()
    for coordinates, factory in FACTORIES.items()
}


def scenarios(tier):
    T = tier == 'thorough'
    for kind, p, params, budgets in REPRESENTATIVES:
        context = natural_context(kind)
        if T:
            budgets = deepened(budgets, 1)
        for index, gaps in enumerate(u(p) + wild(p)[8:9 + 2 * T]):
            xs = to_values(gaps, 2 * index, context)
            ys = to_values(gaps[::-1], index + 1, context)
            for one in params:
                yield Scenario(kind, xs, ys, one, context, budgets)
                if index == 0:
                    yield Scenario(kind, xs, None, one, context, budgets)
    for kind, params in SCARCE_PARAMS.items():
        context = natural_context(kind)
        size = {'multipolygons': 10, 'multicontours': 7, 'mixes': 7,
                'polygons': 7}.get(kind, 5)
        xs = to_values(wild(size)[8], 1, context)
        for one in params:
            yield Scenario(
                kind, xs, xs, one, context,
                {'max_collection': 0, 'max_deviations': 1 + T,
                 'max_random': T},
            )


def make_all(scenario):
    """
    strategies are created one after another for the same coordinates, drawn
    from by turns
    """
    xs, ys = (
        geometry.axis_strategy(scenario.xs),
        geometry.axis_strategy(scenario.ys),
    )
    # either the first one or the last one is created before others
    styles = [*STYLES][::(-1) ** len(repr(scenario))]
    return {
        style: kinds.make(
            scenario.kind, xs, ys, scenario.params,
            CONTEXTS[style, scenario.context],
        )
        for style in styles
    }


def check(scenario, report, choices=None):
    """returns None or (problem, choices)"""
    stats = report.stats
    strategies = make_all(scenario)
    seen = set()
    budgets = {'cap': 20000, **scenario.budgets}
    if choices is None:
        executions = explorer.explore(strategies['first'], **budgets)
    else:
        executions = [explorer.run(strategies['first'], choices)]
    turn = 0
    try:
        for execution in executions:
            stats['executions'] += 1
            stats['evaluations'] += 1
            stats['transitions'] += len(execution.trace)
            stats['states'] += getattr(execution, 'fresh', 0) + 1
            stats[execution.status] += 1
            if execution.status == 'reject':
                continue
            # alternates the order in which contexts are used
            others = [
                style for style in STYLES if style not in ('first', 'own')
            ]
            others = ['own', others[turn % len(others)]][::(-1) ** turn]
            turn += 1
            runs = [('first', execution)]
            runs += [
                (style, explorer.run(strategies[style], execution.choices))
                for style in others
            ]
            for style, one in runs:
                if one.status in ('ok', 'error'):
                    stats['draws'] += 1
                if one.status == 'error' and not geometry.is_refusal(
                    one.value, False
                ):
                    return (
                        f'draw with classes "{style}" fails with '
                        f'{type(one.value).__name__}: {one.value}',
                        execution.choices,
                    )
                if one.status != 'ok':
                    continue
                try:
                    plain = kinds.to_plain(
                        scenario.kind, one.value,
                        CONTEXTS[style, scenario.context],
                    )
                except kinds.Malformed as error:
                    return f'classes "{style}": {error}', execution.choices
                stats['validated'] += 1
                if style == 'first' and plain not in seen:
                    seen.add(plain)
                    if len(seen) == 1 and len(report.samples) < 2:
                        report.samples.append(
                            f'{scenario.kind}({scenario.params}): '
                            f'{one.value!r}'[:500]
                        )
    except explorer.Truncated as error:
        report.truncated.append(f'{scenario}: after {error} executions'[:300])
    finally:
        stats['distinct'] += len(seen)
        stats['scenarios'] += 1
    return None


def check_empty(report):
    for (style, _), context in CONTEXTS.items():
        strategy = planar.empty_geometries(context=context)
        for execution in explorer.explore(strategy):
            report.stats['evaluations'] += 1
            report.stats['executions'] += 1
            if execution.status != 'ok' or (
                type(execution.value) is not context.empty_cls
            ):
                return f'empty geometry of "{style}": {execution.value!r}'
    return None


def job(argument):
    property_id, share = argument
    report = Report()
    for scenario in share:
        if scenario is None:
            problem = check_empty(report)
            if problem is not None:
                report.violation(problem, {'classes': None})
            continue
        try:
            problem = check(scenario, report)
        except Exception as error:
            problem = f'{type(error).__name__}: {error}', None
        if problem is not None:
            report.violation(
                f'{scenario.kind}({scenario.params}): {problem[0]}',
                {'classes': encode(dict(scenario._asdict())),
                 'choices': problem[1]},
            )
            break
    return report


def jobs(property_id, tier):
    items = [None, *scenarios(tier)]
    for index in range(64):
        yield property_id, items[index::64]


def replay(content):
    if content['classes'] is None:
        return check_empty(Report())
    problem = check(
        Scenario(**decode(content['classes'])), Report(), content['choices']
    )
    return None if problem is None else problem[0]
