"""
C15: equal choices give equal geometries.

A draw is recorded by the explorer and repeated by an equally parametrized
strategy built anew: by stock Hypothesis, with other hashes of points and of
whatever objects the library puts into sets, in another process with another
hash seed.
"""
import json
import math
import os
import subprocess
import sys
from contextlib import contextmanager
from fractions import Fraction

from ground.context import Context
from hypothesis.strategies._internal import random as hr

from . import explorer, geometry, kinds
from .driver import Report, decode, encode
from .families import Scenario, to_values, wild
from .suites import REPRESENTATIVES, deepened, natural_context, u

SALTS = (1, 0x9E3779B97F4A7C15, 0xC2B2AE3D27D4EB4F)


def salted_context(salt, coordinates):
    """hashes of points, hence orders in sets of them, depend on the salt"""
    base = kinds.INT_CONTEXT.point_cls

    def __hash__(self):
        return hash((salt, self.x, salt, self.y, salt))

    point_cls = type('Salted', (base,), {'__slots__': (), '__hash__': __hash__,
                                         '__eq__': base.__eq__})
    return Context(
        coordinate_factory={'int': int, 'fraction': Fraction}[coordinates],
        sqrt=math.sqrt, point_cls=point_cls,
    )


SALTED = {
    (salt, name): salted_context(salt, name)
    for salt in SALTS for name in ('int', 'fraction')
}


def identity_hashed_classes():
    """classes of the library with instances hashed by their addresses"""
    import hypothesis_geometry._core as core
    import pkgutil
    import importlib
    result = []
    for info in pkgutil.walk_packages(core.__path__, core.__name__ + '.'):
        module = importlib.import_module(info.name)
        for value in vars(module).values():
            if (
                isinstance(value, type)
                and value.__module__ == info.name
                and value.__hash__ is object.__hash__
                and value not in result
            ):
                result.append(value)
    return result


class Hashes:
    """
    stand-in for addresses: a number given at the first use, mixed with salt
    """

    def __init__(self):
        self.salt = None
        self.numbers = {}

    def __call__(self, instance):
        if self.salt is None:
            return object.__hash__(instance)
        entry = self.numbers.get(id(instance))
        if entry is None:
            # keeps it alive, since addresses are reused otherwise
            entry = self.numbers[id(instance)] = (instance, len(self.numbers))
        number = entry[1]
        if self.salt == 'ascending':
            return number
        if self.salt == 'descending':
            return (1 << 40) - number
        return hash((self.salt, number)) & ((1 << 60) - 1)


HASHES = Hashes()


def install():
    for cls in identity_hashed_classes():
        try:
            cls.__hash__ = lambda self: HASHES(self)
        except (AttributeError, TypeError):
            pass


@contextmanager
def hashed(salt):
    HASHES.salt, HASHES.numbers = salt, {}
    try:
        yield
    finally:
        HASHES.salt, HASHES.numbers = None, {}


@contextmanager
def stock_random():
    current = hr.RandomStrategy.do_draw
    hr.RandomStrategy.do_draw = explorer._original_random_draw
    try:
        yield
    finally:
        hr.RandomStrategy.do_draw = current


def outcome(scenario, execution, context):
    """what has to be the same"""
    if execution.status == 'ok':
        try:
            return ('ok', kinds.to_plain(
                scenario.kind, execution.value, context
            ))
        except kinds.Malformed as error:
            return ('malformed', str(error))
    if execution.status == 'error':
        return ('error', type(execution.value).__name__)
    return (execution.status,)


def build(scenario, context):
    return kinds.make(
        scenario.kind, geometry.axis_strategy(scenario.xs),
        geometry.axis_strategy(scenario.ys), scenario.params, context,
    )


def scenarios(tier):
    T = tier == 'thorough'
    for kind, p, params, budgets in REPRESENTATIVES:
        context = natural_context(kind)
        budgets = (
            deepened(budgets, 1) if T
            else {**budgets,
                  'max_deviations': min(2, budgets.get('max_deviations', 2))}
        )
        patterns = u(p) + wild(p)[8:9] + wild(p)[:3 * T]
        for index, gaps in enumerate(patterns):
            xs = to_values(gaps, index, context)
            ys = to_values(gaps[::-1], index + 1, context)
            for one in params:
                yield Scenario(kind, xs, ys, one, context, budgets, T)


# `rich` stands for thorough here
CAPS = {False: 4000, True: 20000}
RANDOM_KINDS = ('convex_contours', 'contours', 'multisegments', 'mixes')
HASH_SALTS = ('ascending', 'descending', 1, 2)


def check(scenario, report, records, only=None):
    """returns None or (problem, replay)"""
    stats = report.stats
    name = scenario.context
    context = geometry.CONTEXTS[name]
    budgets = {'cap': CAPS[scenario.rich], **scenario.budgets}
    seen = set()
    # `owned`: random objects are under control of the explorer as well;
    # otherwise they are stock ones, made from a seed chosen by the explorer
    modes = ('owned', 'stock') if only is None else only[:1]
    for mode in modes:
        strategy = build(scenario, context)
        salted = {
            salt: build(scenario, SALTED[salt, name]) for salt in SALTS
        }
        if only is not None:
            executions = [explorer.run(strategy, only[1])]
        elif mode == 'owned':
            executions = explorer.explore(strategy, **budgets)
        else:
            # nothing but seeds is new here
            executions = explorer.explore(strategy, **{
                **budgets, 'max_random': 0,
                **({} if scenario.kind in RANDOM_KINDS
                   else {'max_deviations': 1, 'max_collection': 0}),
            })
        executions = iter(executions)
        while True:
            with stock_random() if mode == 'stock' else nothing():
                try:
                    execution = next(executions, None)
                except explorer.Truncated as error:
                    report.truncated.append(
                        f'{scenario}: after {error} executions'[:300]
                    )
                    break
                if execution is None:
                    break
                stats['executions'] += 1
                stats['evaluations'] += 1
                stats['transitions'] += len(execution.trace)
                stats['states'] += getattr(execution, 'fresh', 0) + 1
                stats[execution.status] += 1
                if execution.status == 'broken':
                    return (
                        'other choices are offered after the same ones',
                        [mode, list(execution.data.provider.prefix)],
                    )
                expected = outcome(scenario, execution, context)
                choices = execution.choices
                # again
                variants = [('same strategy', strategy, context, None)]
                turn = stats['executions']
                salt = SALTS[turn % len(SALTS)]
                object_salt = HASH_SALTS[turn // 2 % len(HASH_SALTS)]
                variants.append(
                    (f'points hashes {salt}', salted[salt],
                     SALTED[salt, name], None)
                    if turn % 2
                    else (f'objects hashes {object_salt}', strategy, context,
                          object_salt)
                )
                if only is not None:
                    variants += [
                        (f'points hashes {salt}', salted[salt],
                         SALTED[salt, name], None) for salt in SALTS
                    ] + [
                        (f'objects hashes {object_salt}', strategy, context,
                         object_salt) for object_salt in HASH_SALTS
                    ]
                if turn % 8 == 1:
                    variants.append((
                        'new strategy', build(scenario, context), context,
                        None,
                    ))
                for title, other, other_context, object_salt in variants:
                    with hashed(object_salt):
                        repeated = explorer.run(other, choices)
                    stats['repeated'] += 1
                    found = outcome(scenario, repeated, other_context)
                    if found != expected or (
                        [entry[:2] for entry in repeated.trace]
                        != [entry[:2] for entry in execution.trace]
                    ):
                        return (
                            f'{title}: {found} instead of {expected}'[:900],
                            [mode, choices],
                        )
                if expected[0] == 'ok':
                    if turn % 4 == 1 or only:
                        stock = explorer.replay_with_hypothesis(
                            build(scenario, context),
                            execution.hypothesis_choices,
                        )
                        found = outcome(scenario, stock, context)
                        stats['validated'] += 1
                        if found != expected:
                            return (
                                f'stock Hypothesis: {found} instead of '
                                f'{expected}'[:900], [mode, choices],
                            )
                    if expected not in seen:
                        seen.add(expected)
                        if len(seen) % 8 == 1 or only:
                            records.append((
                                scenario, mode, choices,
                                execution.hypothesis_choices, repr(expected),
                            ))
    stats['distinct'] += len(seen)
    stats['scenarios'] += 1
    return None


@contextmanager
def nothing():
    yield


ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def replay_elsewhere(records, hash_seed):
    """outcomes of recorded draws in another process"""
    content = [
        [encode(dict(scenario._asdict())), mode, encode(list(choices))]
        for scenario, mode, _, choices, _ in records
    ]
    process = subprocess.run(
        [sys.executable, '-c', (
            'import sys; sys.path[:0] = '
            f'{[ROOT, os.environ.get("HG_REPO", "/repo")]!r}; '
            'from mc import replaying; replaying.child()'
        )],
        input=json.dumps(content), capture_output=True, text=True,
        env={**os.environ, 'PYTHONHASHSEED': str(hash_seed)}, timeout=300,
        check=True,
    )
    return json.loads(process.stdout)


def child():
    result = []
    for scenario, mode, choices in json.load(sys.stdin):
        scenario = Scenario(**decode(scenario))
        context = geometry.CONTEXTS[scenario.context]
        with stock_random() if mode == 'stock' else nothing():
            execution = explorer.replay_with_hypothesis(
                build(scenario, context), decode(choices)
            )
            result.append(repr(outcome(scenario, execution, context)))
    print(json.dumps(result))


def job(argument):
    property_id, share = argument
    report = Report()
    install()
    records = []
    for scenario in share:
        problem = check(scenario, report, records)
        if problem is not None:
            report.violation(
                f'{scenario.kind}({scenario.params}) over x={scenario.xs}, '
                f'y={scenario.ys}: {problem[0]}',
                {'repeated': encode(dict(scenario._asdict())),
                 'choices': problem[1]},
            )
            break
    compare_elsewhere(records, report)
    return report


def compare_elsewhere(records, report):
    if not records:
        return
    for seed in (1, 4242):
        # in another order as well
        ordered = records if seed == 1 else records[::-1]
        for record, found in zip(ordered, replay_elsewhere(ordered, seed)):
            report.stats['elsewhere'] += 1
            scenario, mode, choices, _, expected = record
            if found != expected:
                report.violation(
                    f'{scenario.kind}({scenario.params}) in another process: '
                    f'{found} instead of {expected}'[:900],
                    {'repeated': encode(dict(scenario._asdict())),
                     'choices': [mode, choices]},
                )
                return
            if len(report.samples) < 1:
                report.samples.append(
                    f'{scenario.kind}({scenario.params}), choices {choices}: '
                    f'{expected}'[:500]
                )


def jobs(property_id, tier):
    items = list(scenarios(tier))
    for index in range(48):
        if items[index::48]:
            yield property_id, items[index::48]


def replay(content):
    install()
    report, records = Report(), []
    problem = check(
        Scenario(**decode(content['repeated'])), report, records,
        content['choices'],
    )
    if problem is None:
        compare_elsewhere(records, report)
        return report.violations and report.violations[0]['problem'] or None
    return problem[0]
