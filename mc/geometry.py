"""Exhaustive exploration of scenarios, judging every generated value."""
from hypothesis.errors import InvalidArgument
from hypothesis import strategies as st

from . import explorer, kinds
from .driver import Report, encode, decode
from .families import Scenario
from .judges import JUDGES

CONTEXTS = {
    'int': kinds.INT_CONTEXT, 'fraction': kinds.FRACTION_CONTEXT,
    'float': kinds.FLOAT_CONTEXT,
}
VALIDATE_EVERY = 16
CAP = 60000


def axis_strategy(values):
    if values is None:
        return None
    if values == 'integers':
        return st.integers()
    if values == 'fractions':
        return st.fractions()
    return st.sampled_from(list(values))


def build(scenario):
    return kinds.make(
        scenario.kind, axis_strategy(scenario.xs), axis_strategy(scenario.ys),
        scenario.params, CONTEXTS[scenario.context],
    )


def is_refusal(error, rich):
    """domains given by too few values make Hypothesis complain"""
    return isinstance(error, InvalidArgument) and not rich


def replay_of(scenario, execution, **extra):
    return {
        'scenario': encode(dict(scenario._asdict())),
        'choices': execution.choices,
        'value': repr(execution.value)[:3000],
        **extra,
    }


def judge_execution(property_id, scenario, execution, seen, context):
    """returns (problem or None, plain or None)"""
    status = execution.status
    if status == 'ok':
        try:
            plain = kinds.to_plain(scenario.kind, execution.value, context)
        except kinds.Malformed as error:
            return f'malformed: {error}', None
        # equal values of different types are not the same
        key = repr(plain) if property_id == 'C01' else plain
        if key in seen:
            return None, plain
        seen.add(key)
        return JUDGES[property_id](scenario, plain), plain
    if scenario.context == 'float':
        # rounded coordinates: nothing is promised about unfinished draws
        return None, None
    if status == 'hang':
        return f'draw does not end: {execution.value}', None
    if status == 'error' and not is_refusal(execution.value, scenario.rich):
        return (
            f'draw fails with {type(execution.value).__name__}: '
            f'{execution.value}'[:500], None
        )
    return None, None


def executions(strategy, habits=None, **budgets):
    if habits is None:
        return explorer.explore(strategy, **budgets)
    return explorer.explore_habits(
        strategy, habits=habits, part=budgets.get('part')
    )


def explore_scenario(property_id, scenario, report, counter=[0]):
    stats = report.stats
    context = CONTEXTS[scenario.context]
    try:
        strategy = build(scenario)
    except Exception as error:
        report.violation(
            f'strategy is not created: {type(error).__name__}: {error}',
            {'scenario': encode(dict(scenario._asdict())), 'choices': None},
        )
        return
    budgets = {'cap': CAP, **scenario.budgets}
    budgets.pop('parts', None)
    seen = set()
    problems = 0
    try:
        for execution in executions(strategy, **budgets):
            stats['executions'] += 1
            stats[execution.status] += 1
            stats['states'] += execution.fresh + 1
            stats['transitions'] += len(execution.trace)
            problem, plain = judge_execution(
                property_id, scenario, execution, seen, context
            )
            if problem is not None:
                report.violation(problem, replay_of(scenario, execution))
                problems += 1
                if problems >= 2:
                    break
            if execution.status == 'ok':
                counter[0] += 1
                if counter[0] % VALIDATE_EVERY == 1:
                    validate(scenario, strategy, execution, report, context)
                if len(report.samples) < 2:
                    report.samples.append(
                        f'{scenario.kind}({scenario.params}) over '
                        f'x={scenario.xs}, y={scenario.ys}, choices '
                        f'{execution.choices} -> {plain}'[:600]
                    )
    except explorer.Truncated as error:
        report.truncated.append(f'{scenario}: after {error} executions'[:300])
    stats['distinct'] += len(seen)
    stats['scenarios'] += 1


def validate(scenario, strategy, execution, report, context):
    """the same choices through stock Hypothesis, without reductions"""
    other = explorer.replay_with_hypothesis(
        strategy, execution.hypothesis_choices
    )
    if other.status == 'ok' and kinds.to_plain(
        scenario.kind, other.value, context
    ) == kinds.to_plain(scenario.kind, execution.value, context):
        report.stats['validated'] += 1
    else:
        report.stats['replay_mismatches'] += 1
        note = (
            f'stock Hypothesis replay differs ({other.status}) for {scenario} '
            f'{execution.choices}'
        )[:600]
        if len(report.notes) < 3:
            report.notes.append(note)


def job(argument):
    property_id, scenarios = argument
    report = Report()
    for scenario in scenarios:
        explore_scenario(property_id, scenario, report)
        if len(report.violations) >= 4:
            break
    return report


def to_jobs(property_id, scenarios, size=None):
    scenarios = [
        scenario
        if parts is None
        else scenario._replace(
            budgets={**scenario.budgets, 'part': (index, parts)}
        )
        for scenario in scenarios
        for parts in [scenario.budgets.get('parts')]
        for index in range(parts or 1)
    ]
    if size is None:
        size = max(1, min(40, len(scenarios) // 64))
    # interleave, so that neighbouring (equally expensive) ones are spread
    count = max(1, -(-len(scenarios) // size))
    return [
        (property_id, scenarios[index::count]) for index in range(count)
    ]


def replay(content):
    """re-executes a recorded violation, returns (problem, execution)"""
    scenario = Scenario(**decode(content['scenario']))
    strategy = build(scenario)
    execution = explorer.run(strategy, content['choices'])
    problem, _ = judge_execution(
        content['property'], scenario, execution, set(),
        CONTEXTS[scenario.context],
    )
    return problem, execution
