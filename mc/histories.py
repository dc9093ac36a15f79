"""
C16: draws do not depend on what happened before them in the process.

A history is a sequence of operations of a finite alphabet (strategies are
created, drawn from, reused, interrupted, refused, calls are rejected).  All
histories up to a depth are executed, each in a process of its own forked from
one which has not touched the library yet; what each operation gives is compared
to what it gives as the very first one.  Geometries are looked at again in the
end of a history.
"""
import os
import pickle
import signal
from typing import Any, NamedTuple

from . import classes, explorer, geometry, kinds
from .driver import Report, _initialize, decode, encode
from .families import Scenario, fractions_of, integers_of

CONTEXTS = {
    **geometry.CONTEXTS,
    **{
        f'{style} {name}': context
        for (style, name), context in classes.CONTEXTS.items()
        if style in ('second', 'own')
    },
}


class Operation(NamedTuple):
    action: str  # 'new', 'shared', 'interrupted', 'rejected', 'created'
    scenario: Any
    choices: tuple
    limit: int = -1


class Interrupted(BaseException):
    pass


class _InterruptedProvider(explorer.ChoiceProvider):
    limit = -1

    def choose(self, n, default=0, kind='s'):
        if len(self.trace) >= self.limit:
            raise Interrupted
        return super().choose(n, default, kind)


def draw(strategy, choices, limit=-1):
    """returns an execution, of status 'interrupted' if it is"""
    if limit < 0:
        return explorer.run(strategy, list(choices))
    provider = _InterruptedProvider(list(choices))
    provider.limit = limit
    data = explorer.ConjectureData(random=None, provider=provider)
    try:
        return explorer._run(strategy, data, provider)
    except Interrupted as error:
        return explorer.Execution('interrupted', error, provider.trace, data)


class History:
    """state of the user of the library in a process"""

    def __init__(self):
        self.axes = {}
        self.strategies = {}
        self.values = []

    def axis(self, values):
        # strategies of coordinates are shared as well
        if values is None:
            return None
        result = self.axes.get(values)
        if result is None:
            result = self.axes[values] = geometry.axis_strategy(values)
        return result

    def make(self, scenario):
        return kinds.make(
            scenario.kind, self.axis(scenario.xs), self.axis(scenario.ys),
            scenario.params, CONTEXTS[scenario.context],
        )

    def perform(self, operation):
        """returns outcome, which is comparable"""
        action, scenario, choices, limit = operation
        try:
            if action == 'shared':
                key = repr(scenario)
                if key not in self.strategies:
                    self.strategies[key] = self.make(scenario)
                strategy = self.strategies[key]
            else:
                strategy = self.make(scenario)
        except ValueError as error:
            return ('rejected', str(error))
        if action == 'created':
            return ('created',)
        execution = draw(strategy, choices, limit)
        trace = tuple(entry[:2] for entry in execution.trace)
        if execution.status == 'ok':
            value = execution.value
            plain = self.to_plain(scenario, value)
            self.values.append((scenario, value, plain))
            return ('ok', plain, trace)
        if execution.status == 'error':
            return ('error', type(execution.value).__name__, trace)
        return (execution.status, trace)

    @staticmethod
    def to_plain(scenario, value):
        try:
            return kinds.to_plain(
                scenario.kind, value, CONTEXTS[scenario.context]
            )
        except kinds.Malformed as error:
            return ('malformed', str(error))

    def changed(self):
        """returns first changed geometry, if any"""
        for scenario, value, plain in self.values:
            now = self.to_plain(scenario, value)
            if now != plain:
                return (
                    f'{scenario.kind} generated earlier was {plain}, became '
                    f'{now}'
                )
        return None


# -- processes ----------------------------------------------------------------

def in_fork(function, *args):
    """calls function in a copy of this process"""
    reader, writer = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(reader)
            # nothing is inherited in the middle of being measured
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            explorer._timer_is_active[0] = False
            with os.fdopen(writer, 'wb') as stream:
                try:
                    result = (True, function(*args))
                except BaseException as error:
                    result = (False, f'{type(error).__name__}: {error}')
                stream.write(pickle.dumps(result))
            code = 0
        finally:
            os._exit(code)
    os.close(writer)
    with os.fdopen(reader, 'rb') as stream:
        content = stream.read()
    os.waitpid(pid, 0)
    if not content:
        raise RuntimeError('forked process died')
    success, result = pickle.loads(content)
    if not success:
        raise RuntimeError(result)
    return result


def _perform_all(operations):
    history = History()
    outcomes = [history.perform(operation) for operation in operations]
    return outcomes, history.changed()


def alone(operation):
    [outcome], _ = in_fork(_perform_all, [operation])
    return outcome


# -- alphabet -----------------------------------------------------------------

SIZES = {
    'points': 2, 'segments': 3, 'boxes': 3, 'multipoints': 3,
    'triangular_contours': 3, 'rectangular_contours': 3,
    'convex_contours': 5, 'concave_contours': 7, 'star_contours': 7,
    'contours': 7, 'multisegments': 5, 'multicontours': 7, 'polygons': 7,
    'multipolygons': 10, 'mixes': 8,
}
# (parameters, extra number of coordinates)
PARAMS = {
    'multipoints': [{'min_size': 2}, {'max_size': 1}],
    'convex_contours': [{'min_size': 5}, {'max_size': 4}],
    'concave_contours': [{'min_size': 5}, {'max_size': 4}],
    'star_contours': [{'min_size': 4}, {'max_size': 4}],
    'contours': [{'min_size': 5}, {'max_size': 4}],
    'multisegments': [{'min_size': 3}, {'max_size': 2}],
    'multicontours': [{'max_size': 2}, {'max_contour_size': 3}],
    'polygons': [{'max_holes_size': 0}, {'min_holes_size': 1},
                 {'min_size': 4}, {'max_size': 3}],
    'multipolygons': [{'max_holes_size': 0}, {'max_border_size': 3},
                      {'max_size': 2}],
    'mixes': [{'max_polygons_size': 0}, {'max_points_size': 0},
              {'max_segments_size': 0}],
}
REJECTED = [
    ('multipoints', {'min_size': 3, 'max_size': 2}),
    ('contours', {'max_size': 2}),
    ('polygons', {'min_holes_size': 2, 'max_holes_size': 1}),
    ('mixes', {'max_points_size': 0, 'max_segments_size': 0}),
    ('multicontours', {'min_size': 1}),  # warns
]


def domains(kind):
    size = SIZES[kind]
    return [
        integers_of(range(size)),
        integers_of(3 * i + i % 2 for i in range(-2, size - 1)),
        fractions_of(range(size), 3),
    ]


def configurations(kind, thorough):
    """each two first ones differ in a single thing"""
    first, second, third = domains(kind)
    yield Scenario(kind, third, third, {}, 'fraction')
    yield Scenario(kind, third, second, {}, 'fraction')
    yield Scenario(kind, second, None, {}, 'own fraction')
    for params in PARAMS.get(kind, [])[:None if thorough else 2]:
        yield Scenario(kind, third, third, params, 'fraction')
    yield Scenario(kind, third, third, {}, 'second fraction')
    if thorough:
        yield Scenario(kind, second, third, {}, 'fraction')


def _find(scenario, count):
    """choices of different geometries and of a refusal"""
    history = History()
    strategy = history.make(scenario)
    found, refused, longest = {}, None, 0
    for deviations in (1, 2, 4):
        try:
            for execution in explorer.explore(
                strategy, max_deviations=deviations, max_random=0,
                max_collection=1, cap=400,
            ):
                longest = max(longest, len(execution.trace))
                if execution.status == 'ok':
                    plain = history.to_plain(scenario, execution.value)
                    found.setdefault(plain, tuple(execution.choices))
                elif refused is None:
                    refused = tuple(execution.choices)
                if len(found) >= 40:
                    break
        except explorer.Truncated:
            pass
        if len(found) >= count:
            break
    items = sorted(found.items(), key=repr)
    step = max(1, len(items) // count)
    return (
        [choices for _, choices in items[::step][:count]], refused, longest
    )


def alphabet(kind, thorough):
    """operations of the kind"""
    result = []
    count = 3 if thorough else 2
    for index, scenario in enumerate(configurations(kind, thorough)):
        choices, refused, longest = in_fork(_find, scenario, count)
        result += [
            Operation('new', scenario, one) for one in choices
        ]
        if index < 2:
            result += [
                Operation('shared', scenario, one) for one in choices
            ]
        if refused is not None and index < 2:
            result.append(Operation('shared', scenario, refused))
        if index == 0:
            # interrupted at the end, and in the middle
            for limit in {longest - 1, longest // 2, 1}:
                if limit > 0 and choices:
                    result.append(Operation(
                        'interrupted', scenario, choices[-1][:limit], limit
                    ))
                    result.append(Operation(
                        'shared', scenario, choices[-1][:limit], limit
                    ))
            result.append(Operation('created', scenario, ()))
    result += [
        Operation('created', Scenario(
            name, domains(kind)[2], None, params, 'fraction'
        ), ())
        for name, params in REJECTED if name == kind
    ]
    return result


# -- shared strategies with many kinds of draws -------------------------------

ROOMY = {
    'multipoints': (4, [{}]),
    'convex_contours': (7, [{}, {'min_size': 5}]),
    'concave_contours': (11, [{}]),
    'star_contours': (11, [{}]),
    'contours': (11, [{}]),
    'multisegments': (7, [{}, {'max_size': 4}]),
    'multicontours': (13, [{}, {'max_size': 3}, {'min_contour_size': 4}]),
    'polygons': (13, [{}, {'min_holes_size': 1}]),
    'multipolygons': (16, [{}, {'max_holes_size': 0, 'max_border_size': 4},
                           {'min_holes_size': 1}]),
    'mixes': (13, [{}, {'max_points_size': 1, 'max_segments_size': 2},
                   {'max_polygons_size': 0, 'min_segments_size': 2}]),
}


def roomy_scenarios(tier):
    """strategies whose draws differ a lot from each other"""
    for kind, (size, params) in ROOMY.items():
        for index, one in enumerate(params):
            size_ = 14 if 'min_holes_size' in one else size
            xs = fractions_of((i * i + index * i for i in range(size_)), 2)
            ys = fractions_of((3 * i + i % 2 for i in range(size_ + 1)), 5)
            yield Scenario(kind, xs, ys, one, 'fraction')
            if tier == 'thorough' or index == 0:
                yield Scenario(kind, xs[1:], None, one, 'fraction')


def _balanced(sequences, count):
    """takes sequences from all the branches of their prefix tree evenly"""
    if count >= len(sequences):
        return list(sequences)
    depth = 0
    while all(
        sequence[depth:depth + 1] == sequences[0][depth:depth + 1]
        for sequence in sequences
    ):
        depth += 1
    branches = {}
    for sequence in sequences:
        branches.setdefault(sequence[:depth + 1], []).append(sequence)
    groups = sorted(branches.values(), key=len)
    result = []
    for index, group in enumerate(groups):
        share = -(-(count - len(result)) // (len(groups) - index))
        if share:
            result += _balanced(group, share)
    return result


def _collect(scenario, bases):
    history = History()
    strategy = history.make(scenario)
    found, refused = {}, []
    for spread in range(bases):
        for deviations, collections in ((0, 1), (1, 0)):
            try:
                for execution in explorer.explore(
                    strategy, max_deviations=deviations, max_random=0,
                    max_collection=collections, cap=24, spread=spread,
                ):
                    choices = tuple(execution.choices)
                    if execution.status == 'ok':
                        found.setdefault(
                            history.to_plain(scenario, execution.value),
                            choices,
                        )
                    elif len(refused) < 3:
                        refused.append(choices)
            except explorer.Truncated:
                pass
    return sorted(found.values()), refused


def diverse(scenario, count, bases):
    """operations of a shared strategy"""
    found, refused = in_fork(_collect, scenario, bases)
    return [
        Operation('shared', scenario, choices)
        for choices in _balanced(found, count) + refused[:2]
    ]


def summary(operation):
    action, scenario, choices, limit = operation
    return (
        f'{action} {scenario.kind}({scenario.params}, '
        f'{scenario.context}) {list(choices)}'
        + (f' interrupted after {limit}' if limit >= 0 else '')
    )


def encoded(operations):
    return [
        [action, encode(dict(scenario._asdict())), list(choices), limit]
        for action, scenario, choices, limit in operations
    ]


def decoded(operations):
    return [
        Operation(action, Scenario(**decode(scenario)), tuple(choices), limit)
        for action, scenario, choices, limit in operations
    ]


# -- exploration --------------------------------------------------------------

def _branch(prefix, candidates, depth):
    """
    executes prefix, then all sequences of candidates up to the depth, each
    continuation in a process of its own;
    returns list of (suffix of indices, outcome, changed geometry)
    """
    history = History()
    for operation in prefix:
        history.perform(operation)
    return _extend(history, candidates, depth)


def _extend(history, candidates, depth):
    result = []
    for index, operation in enumerate(candidates):
        result += in_fork(_step, history, candidates, depth, index, operation)
    return result


def _step(history, candidates, depth, index, operation):
    outcome = history.perform(operation)
    result = [((index,), outcome, history.changed())]
    if depth > 1:
        for suffix, outcome, changed in _extend(
            history, candidates, depth - 1
        ):
            result.append(((index, *suffix), outcome, changed))
    return result


def judge_sequence(operations, outcome, expected, changed):
    if outcome != expected:
        return (
            f'{summary(operations[-1])} gives {outcome} instead of {expected} '
            f'after {"; ".join(map(summary, operations[:-1]))}'
        )[:1500]
    if changed:
        return (
            f'{changed} after {"; ".join(map(summary, operations))}'
        )[:1500]
    return None


def trace_length(outcome):
    """number of choices made"""
    return len(outcome[-1]) if isinstance(outcome[-1], tuple) else 0


def tree_job(argument):
    """all histories of a kind starting with some of operations"""
    property_id, title, first, candidates, depth = argument
    report = Report()
    stats = report.stats
    expected = [alone(operation) for operation in candidates]
    # outcomes in processes which have done nothing else
    stats['validated'] += len(expected)
    stats['states'] += 2
    for suffix, outcome, changed in in_fork(
        _branch, [first], candidates, depth
    ):
        operations = [first, *(candidates[index] for index in suffix)]
        stats['evaluations'] += 1
        stats['states'] += 1
        stats['transitions'] += trace_length(outcome)
        stats['distinct'] += outcome[0] == 'ok'
        stats[outcome[0]] += 1
        problem = judge_sequence(
            operations, outcome, expected[suffix[-1]], changed
        )
        if problem is not None:
            report.violation(problem, {'history': encoded(operations)})
            if len(report.violations) >= 2:
                return report
    stats['scenarios'] += 1
    report.samples.append(
        f'{title}: all histories of {depth} operation(s) of '
        f'{len(candidates)} after {summary(first)}'[:400]
    )
    return report


def de_bruijn(size, depth):
    """cyclic sequence in which each word of the length occurs once"""
    result, word = [], [0] * (size * depth)

    def extend(t, p):
        if t > depth:
            if depth % p == 0:
                result.extend(word[1:p + 1])
        else:
            word[t] = word[t - p]
            extend(t + 1, p)
            for letter in range(word[t - p] + 1, size):
                word[t] = letter
                extend(t + 1, t)

    extend(1, 1)
    return result


def _perform_long(operations, expected, sequence):
    """returns position of the first difference and the difference"""
    history = History()
    for position, index in enumerate(sequence):
        outcome = history.perform(operations[index])
        if outcome != expected[index]:
            return position, outcome, None
        if position % 16 == 15 or position == len(sequence) - 1:
            changed = history.changed()
            if changed:
                return position, outcome, changed
            del history.values[:-40]
    return None


def long_job(argument):
    """a history having all words of operations as its parts"""
    property_id, title, operations, depth, part, parts = argument
    report = Report()
    stats = report.stats
    expected = [alone(operation) for operation in operations]
    sequence = de_bruijn(len(operations), depth)
    sequence += sequence[:depth - 1]
    length = -(-len(sequence) // parts)
    sequence = sequence[
        part * length:(part + 1) * length + depth - 1
    ]
    problem = in_fork(_perform_long, operations, expected, sequence)
    stats['evaluations'] += len(sequence)
    stats['states'] += len(sequence) + 1
    stats['transitions'] += sum(
        trace_length(expected[index]) for index in sequence
    )
    stats['validated'] += len(expected)
    stats['scenarios'] += 1
    if problem is not None:
        position, outcome, changed = problem
        performed = [
            operations[index] for index in sequence[:position + 1]
        ]
        report.violation(
            judge_sequence(
                performed[-1:], outcome, expected[sequence[position]], changed
            ),
            {'history': encoded(performed)},
        )
    return report


def wide_job(argument):
    """all pairs of different draws from the same strategy"""
    property_id, operations, part, parts = argument
    return long_job((
        property_id, operations[0].scenario.kind, operations, 2, part, parts,
    ))


def dispatch(argument):
    name, *rest = argument
    return {'tree': tree_job, 'long': long_job, 'wide': wide_job}[name](
        tuple(rest)
    )


def kind_alphabet_job(argument):
    return alphabet(*argument)


def jobs(property_id, tier, alphabets, roomy=()):
    """`alphabets` maps kinds to operations, `roomy` has lists of them"""
    T = tier == 'thorough'
    for operations in roomy:
        parts = 16 if T else 2
        for part in range(parts):
            yield 'wide', property_id, operations, part, parts
    # first operations are checked against themselves in other processes
    for kind, operations in alphabets.items():
        for first in operations:
            yield ('tree', property_id, kind, first, operations, 1)
        few = [
            operation for operation in operations
            if operation.action in ('new', 'shared')
        ][:None if T else 6]
        for first in few:
            yield ('tree', property_id, kind, first, few, 2)
    # across kinds
    several = []
    for kind, operations in alphabets.items():
        news = [
            operation for operation in operations
            if operation.action == 'new'
        ]
        several += [news[0], news[len(news) // 2]][:None if T else 2]
        several += [
            operation for operation in operations
            if operation.action == 'interrupted'
        ][:1]
    for first in several:
        yield ('tree', property_id, 'all kinds', first, several, 1)
    # long histories
    ones = [
        next(operation for operation in operations
             if operation.action == 'new')
        for operations in alphabets.values()
    ]
    parts = 16
    for part in range(parts):
        yield ('long', property_id, 'all kinds', ones, 3, part, parts)
    for kind, operations in alphabets.items():
        chosen = [
            operation for operation in operations
            if operation.action == 'shared'
        ][:6]
        if len(chosen) > 1:
            yield ('long', property_id, kind, chosen, 4 if T else 3, 0, 1)


def replay(content):
    operations = decoded(content['history'])
    expected = alone(operations[-1])
    outcomes, changed = in_fork(_perform_all, operations)
    return judge_sequence(operations, outcomes[-1], expected, changed)


def all_alphabets(tier):
    from concurrent.futures import ProcessPoolExecutor
    with ProcessPoolExecutor(8, initializer=_initialize) as pool:
        alphabets = pool.map(
            kind_alphabet_job, [(kind, tier == 'thorough') for kind in SIZES]
        )
        return {
            kind: operations for kind, operations in zip(SIZES, alphabets)
            # strategies which never give anything are matters of others
            if any(operation.action == 'new' for operation in operations)
        }


def _diverse_job(argument):
    return diverse(*argument)


def all_roomy(tier):
    from concurrent.futures import ProcessPoolExecutor
    count, bases = (96, 40) if tier == 'thorough' else (40, 12)
    with ProcessPoolExecutor(8, initializer=_initialize) as pool:
        result = pool.map(_diverse_job, [
            (scenario, count, bases)
            for scenario in reversed([*roomy_scenarios(tier)])
        ])
        return [operations for operations in result if len(operations) > 1]
