"""Registry of the checks."""
import time

from . import (
    calls, classes, driver, geometry, histories, outcomes, replaying, suites,
    threads,
)

ASSUMPTIONS = [
    'randomness reaches the strategies only through Hypothesis',
    'bounds: finite coordinates domains, sizes and budgets of deviations '
    'from default answers as listed in DESIGN.md',
]
GEOMETRY_RULE = (
    'one evaluation = one execution of the real strategy code under a '
    'complete sequence of choices; executions are enumerated depth-first '
    'over all choice points within the budgets; distinct = different '
    'geometries per scenario (refused draws are not counted)'
)
TITLES = {
    'C01': 'coordinates provenance', 'C02': 'sizes', 'C03': 'simple contours',
    'C04': 'convex and concave contours', 'C05': 'star contours',
    'C06': 'non-degenerate elements', 'C07': 'multisegments',
    'C08': 'multicontours', 'C09': 'polygons', 'C10': 'multipolygons',
    'C11': 'mixes', 'C12': 'rejected sizes', 'C13': 'warnings and clamping',
    'C14': 'no crashes', 'C15': 'replay', 'C16': 'history independence',
    'C17': 'concurrent draws', 'C18': 'reachability',
    'C19': 'elementary strategies', 'C20': 'context classes',
    'C21': 'omitted y strategy',
}
DEADLINES = {'quick': driver.QUICK_DEADLINE, 'thorough': 6 * 3600.}


CALLS_RULE = (
    'one evaluation = one call of a public function with a combination of '
    'sizes bounds, judged against a reference model of the validation; '
    'distinct = calls that are to be rejected or to warn'
)
SETS_RULE = (
    'one evaluation = one execution of the real strategy code under a complete '
    'sequence of choices; distinct = different geometries (or sizes and '
    'compositions having a witness) compared'
)


def parts(property_id, tier):
    """yields (function, jobs)"""
    if property_id in ('C12', 'C13'):
        yield calls.job, calls.jobs(property_id, tier)
    if property_id in ('C13', 'C21'):
        yield (
            outcomes.comparison_job,
            outcomes.comparison_jobs(property_id, tier),
        )
    if property_id == 'C18':
        yield outcomes.witness_job, outcomes.witness_jobs(property_id, tier)
    if property_id == 'C19':
        yield outcomes.exact_job, outcomes.exact_jobs(property_id, tier)
    if property_id == 'C15':
        yield replaying.job, replaying.jobs(property_id, tier)
    if property_id == 'C16':
        yield (
            histories.dispatch,
            histories.jobs(
                property_id, tier, histories.all_alphabets(tier),
                histories.all_roomy(tier),
            ),
        )
    if property_id == 'C17':
        yield (
            threads.dispatch,
            threads.jobs(
                property_id, tier, histories.all_alphabets(tier),
                histories.all_roomy(tier),
            ),
        )
    if property_id == 'C20':
        yield classes.job, classes.jobs(property_id, tier)
    if hasattr(suites, property_id):
        scenarios = list(getattr(suites, property_id)(tier))
        yield geometry.job, geometry.to_jobs(property_id, scenarios)


RULES = {
    'C12': CALLS_RULE,
    'C13': f'calls: {CALLS_RULE}; sets: {SETS_RULE}',
    'C18': SETS_RULE, 'C19': SETS_RULE, 'C21': SETS_RULE,
    'C15': (
        'one evaluation = one recorded draw, repeated with the same and new '
        'strategies, under other hashes, by stock Hypothesis and in other '
        'processes; distinct = different geometries per scenario'
    ),
    'C16': (
        'one evaluation = one operation as the last one of a history; states '
        '= histories, transitions = choices made by draws; validated = '
        'references obtained in processes which have done nothing else; '
        'distinct = draws which gave a geometry'
    ),
    'C17': (
        'one evaluation = one schedule of two draws; states = pieces of draws '
        'running without interruption, transitions = switches between the '
        'draws; validated = draws repeated alone by the explorer; distinct = '
        'schedules in which all switches took place'
    ),
    'C20': (
        'one evaluation = one sequence of choices executed by strategies of '
        'several contexts by turns; validated = geometries with all of the '
        'classes compared; distinct = different geometries per scenario'
    ),
}


def rule_of(property_id):
    return RULES.get(property_id, GEOMETRY_RULE)


def run(property_id, tier, started):
    if property_id not in TITLES:
        raise SystemExit(f'unknown property {property_id}')
    reports = [
        driver.run_jobs(
            function, jobs, DEADLINES[tier] - (time.monotonic() - started)
        )
        for function, jobs in parts(property_id, tier)
    ]
    return driver.finish(
        property_id, tier, driver.merge(reports), started,
        title=TITLES[property_id], rule=rule_of(property_id),
        assumptions=ASSUMPTIONS,
    )
