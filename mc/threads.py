"""
C17: draws running concurrently do not interfere.

Two draws run in two real threads, of which exactly one runs at a time: a
scheduler owns the switches.  Points where a draw may be preempted are its
choice points and the lines of the library it executes.  Schedules with one
preemption are enumerated over all choice points and over the first, a middle
and the last execution of each executed line of the library; schedules with
two preemptions over all pairs of choice points (and, in the thorough tier,
of first executions of lines).  Besides, draws are nested: the second one runs
inside of the first one at each of its choice points, in the same thread.
What each draw gives is compared to what it gives alone.
"""
import os
import sys
import threading
from itertools import islice

import hypothesis_geometry

from . import explorer, histories
from .driver import Report
from .histories import History, Operation

LIBRARY = os.path.dirname(os.path.abspath(hypothesis_geometry.__file__))
PATIENCE = 3.
LIMIT = 60.


class Scheduler:
    """
    `schedule` is a sequence of (point of the running thread at which
    the other one is resumed)
    """

    def __init__(self, schedule=(), count=2):
        self.schedule = list(schedule)
        self.position = 0
        self.running = 0
        self.finished = [False] * count
        self.condition = threading.Condition()
        self.free = False
        self.switches = 0

    def wait(self, index):
        """until it is the turn of the thread"""
        with self.condition:
            while self.running != index and not self.free:
                if not self.condition.wait(PATIENCE):
                    # the other one waits for something this one holds
                    self.free = True
                    self.condition.notify_all()

    def switch(self, index):
        with self.condition:
            other = 1 - index
            if self.free or self.finished[other]:
                return
            self.switches += 1
            self.running = other
            self.condition.notify_all()
        self.wait(index)

    def finish(self, index):
        with self.condition:
            self.finished[index] = True
            self.running = 1 - index
            self.condition.notify_all()

    def is_over(self):
        return self.position >= len(self.schedule)

    def reached(self, index, point):
        """called at each point of the running thread"""
        if (
            self.position < len(self.schedule)
            and self.schedule[self.position] == (index, point)
        ):
            self.position += 1
            self.switch(index)


class _Provider(explorer.ChoiceProvider):
    on_choice = None

    def choose(self, n, default=0, kind='s'):
        if self.on_choice is not None:
            self.on_choice(len(self.trace))
        return super().choose(n, default, kind)


class Points:
    """points a draw goes through"""

    def __init__(self, on_point, is_over):
        self.lines = {}
        self.on_point = on_point
        self.is_over = is_over

    def trace(self, frame, event, _argument):
        if (
            event == 'call'
            and frame.f_code.co_filename.startswith(LIBRARY)
            and not self.is_over()
        ):
            return self.trace_lines
        return None

    def trace_lines(self, frame, event, _argument):
        if self.is_over():
            # nothing is left to be switched
            sys.settrace(None)
            return None
        if event == 'line':
            key = (frame.f_code.co_filename[len(LIBRARY):], frame.f_lineno)
            number = self.lines[key] = self.lines.get(key, 0) + 1
            self.on_point(('line', *key, number))
        return self.trace_lines

    def choice(self, index):
        self.on_point(('choice', index))


def draw(history, strategy, operation, on_point, lines, is_over=bool):
    """outcome of a draw calling back at its points"""
    scenario = operation.scenario
    points = Points(on_point, is_over)
    provider = _Provider(list(operation.choices))
    provider.on_choice = points.choice
    data = explorer.ConjectureData(random=None, provider=provider)
    if lines:
        sys.settrace(points.trace)
    try:
        try:
            value = explorer._draw(strategy, data)
            status = 'ok'
        except (explorer.StopTest, explorer.UnsatisfiedAssumption) as error:
            status, value = 'reject', error
        except explorer.BrokenReplay as error:
            status, value = 'broken', error
        except Exception as error:
            status, value = 'error', error
    finally:
        if lines:
            sys.settrace(None)
    trace = tuple(entry[:2] for entry in provider.trace)
    if status == 'ok':
        return ('ok', history.to_plain(scenario, value), trace), points.lines
    if status == 'error':
        return (
            ('error', f'{type(value).__name__}: {value}', trace), points.lines
        )
    return (status, trace), points.lines


def make_two(operations):
    """the same strategy for the same scenario"""
    history = History()
    first = history.make(operations[0].scenario)
    second = (
        first if operations[1].scenario == operations[0].scenario
        else history.make(operations[1].scenario)
    )
    return history, [first, second]


def run_threads(history, strategies, operations, schedule, lines):
    """returns outcomes of draws"""
    scheduler = Scheduler(schedule)
    outcomes = [None, None]

    def body(index):
        scheduler.wait(index)
        try:
            outcomes[index], _ = draw(
                history, strategies[index], operations[index],
                lambda point: scheduler.reached(index, point), lines,
                scheduler.is_over,
            )
        except BaseException as error:
            outcomes[index] = ('failed', f'{type(error).__name__}: {error}')
        finally:
            scheduler.finish(index)

    threads = [
        threading.Thread(target=body, args=(index,), daemon=True)
        for index in range(2)
    ]
    for thread in threads:
        thread.start()
    for thread in threads:
        thread.join(LIMIT)
        if thread.is_alive():
            outcomes = [
                ('endless',) if outcome is None else outcome
                for outcome in outcomes
            ]
    return outcomes, scheduler


def run_nested(history, strategies, operations, point):
    """the second draw runs inside of the first one"""
    inner = []

    def on_point(current):
        if current == point and not inner:
            inner.append(None)
            inner[0], _ = draw(
                history, strategies[1], operations[1], lambda _: None, False
            )

    outer, _ = draw(history, strategies[0], operations[0], on_point, False)
    return [outer, inner[0] if inner else None]


def points_of(operations, index, thorough=False):
    """(choice points, lines points) of a draw running alone"""
    history = History()
    strategies = [history.make(operation.scenario) for operation in operations]
    outcome, lines = draw(
        history, strategies[index], operations[index], lambda _: None, True
    )
    choices = [('choice', number) for number in range(len(outcome[-1]))]
    places = []
    for (name, line), count in sorted(lines.items()):
        for number in sorted(
            {1, 2, (count + 1) // 2, count - 1, count} & {*range(1, count + 1)}
            if thorough else {1, count}
        ):
            places.append(('line', name, line, number))
    return outcome, choices, places


def schedules(operations, thorough, alone):
    """yields (is nested, schedule, lines are needed)"""
    (_, first_choices, first_lines), (_, second_choices, second_lines) = alone
    for point in first_choices:
        yield True, [(0, point)], False
    for point in first_choices:
        yield False, [(0, point)], False
        for other in second_choices:
            yield False, [(0, point), (1, other)], False
            if thorough:
                for last in first_choices:
                    if last[1] > point[1]:
                        yield (
                            False, [(0, point), (1, other), (0, last)], False
                        )
    for point in first_lines:
        yield False, [(0, point)], True
        if thorough and point[-1] == 1:
            for other in second_lines:
                if other[-1] == 1:
                    yield False, [(0, point), (1, other)], True


def light_schedules(alone, with_threads):
    """a single preemption at each choice point"""
    (_, choices, _), _ = alone
    for point in choices:
        # the same interleavings of accesses to anything shared
        yield not with_threads, [(0, point)], False


def judge(operations, schedule, outcomes, expected):
    for index in range(2):
        if outcomes[index] is not None and outcomes[index] != expected[index]:
            return (
                f'{histories.summary(operations[index])} gives '
                f'{outcomes[index]} instead of {expected[index]} when '
                f'running concurrently with '
                f'{histories.summary(operations[1 - index])}, switched at '
                f'{schedule}'
            )[:1500]
    return None


def validate(operations, expected, report):
    """draws alone are the same without being traced"""
    history, strategies = make_two(operations)
    for strategy, operation, outcome in zip(
        strategies, operations, expected
    ):
        execution = explorer.run(strategy, list(operation.choices))
        if execution.status == outcome[0] == 'reject':
            report.stats['validated'] += 1
        elif (execution.status, outcome[0]) == ('ok', 'ok') and (
            history.to_plain(operation.scenario, execution.value)
            == outcome[1]
        ):
            report.stats['validated'] += 1
        else:
            report.notes.append(
                f'{histories.summary(operation)} differs without tracing'
            )


def pair_job(argument):
    property_id, operations, thorough, part, parts = argument
    report = Report()
    alone = [points_of(operations, index, thorough) for index in range(2)]
    return explore_pair(
        operations, alone,
        islice(
            schedules(operations, thorough, alone), part, None, parts
        ), report,
    )


def light_job(argument):
    """each two draws from a strategy out of several ones"""
    property_id, operations, first = argument
    report = Report()
    alone = [points_of([operation], 0) for operation in operations]
    for second, operation in enumerate(operations):
        pair = [operations[first], operation]
        ones = [alone[first], alone[second]]
        explore_pair(
            pair, ones, light_schedules(ones, (first + second) % 3 == 1),
            report,
        )
        if report.violations:
            break
    return report


def dispatch(argument):
    name, *rest = argument
    return {'pair': pair_job, 'light': light_job}[name](tuple(rest))


def explore_pair(operations, alone, schedules_, report):
    stats = report.stats
    expected = [item[0] for item in alone]
    validate(operations, expected, report)
    _, strategies = make_two(operations)
    history = History()
    for is_nested, schedule, lines in schedules_:
        if stats['evaluations'] % 16 == 0:
            # interference of draws with the lazy parts of new strategies
            history, strategies = make_two(operations)
        stats['evaluations'] += 1
        # pieces of draws running without interruption
        stats['states'] += len(schedule) + 2
        if is_nested:
            outcomes = run_nested(
                history, strategies, operations, schedule[0][1]
            )
            stats['nested'] += 1
            stats['transitions'] += 2
        else:
            outcomes, scheduler = run_threads(
                history, strategies, operations, schedule, lines
            )
            stats['transitions'] += scheduler.switches + 1
            stats['preemptions'] += scheduler.switches
            stats['free_runs'] += scheduler.free
            stats['distinct'] += scheduler.position == len(schedule)
        problem = judge(operations, schedule, outcomes, expected)
        if problem is not None:
            report.violation(problem, {
                'concurrent': histories.encoded(operations),
                'nested': is_nested, 'schedule': schedule, 'lines': lines,
            })
            break
        if len(report.samples) < 1 and schedule and lines:
            report.samples.append(
                f'{histories.summary(operations[0])} | '
                f'{histories.summary(operations[1])}, switched at {schedule}'
                [:400]
            )
    stats['scenarios'] += 1
    return report


def jobs(property_id, tier, alphabets, roomy):
    T = tier == 'thorough'
    for operations in roomy:
        few = operations[::-(-len(operations) // (24 if T else 7))]
        for first in range(len(few)):
            yield 'light', property_id, few, first
    parts = 16 if T else 4
    for operations in pairs(tier, alphabets):
        for part in range(parts):
            yield 'pair', property_id, operations, T, part, parts


def pairs(tier, alphabets):
    T = tier == 'thorough'
    chosen = {}
    for kind, operations in alphabets.items():
        news = [item for item in operations if item.action == 'new']
        scenarios = []
        for item in news:
            if item.scenario not in scenarios:
                scenarios.append(item.scenario)
        chosen[kind] = [
            [item for item in news if item.scenario == scenario]
            for scenario in scenarios
        ]
    kinds_ = list(chosen)
    for index, (kind, groups) in enumerate(chosen.items()):
        same = groups[0]
        # the same strategy, different choices
        yield [same[0], same[-1]]
        # other coordinates, other sizes
        for group in groups[1:] if T else groups[2:4]:
            yield [same[-1], group[0]]
            if T:
                yield [group[-1], same[0]]
        other = chosen[kinds_[(index + 1) % len(kinds_)]][0]
        yield [same[-1], other[-1]]


def replay(content):
    operations = histories.decoded(content['concurrent'])
    schedule = [
        (index, tuple(point)) for index, point in content['schedule']
    ]
    expected = [points_of(operations, index)[0] for index in range(2)]
    history, strategies = make_two(operations)
    if content['nested']:
        outcomes = run_nested(
            history, strategies, operations, schedule[0][1]
        )
    else:
        outcomes, _ = run_threads(
            history, strategies, operations, schedule, content['lines']
        )
    return judge(operations, schedule, outcomes, expected)
