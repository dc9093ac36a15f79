"""Runs scenarios in parallel, collects evidence, reports violations."""
import json
import os
import pathlib
import resource
import sys
import time
import traceback
from collections import Counter
from concurrent.futures import ProcessPoolExecutor, as_completed
from concurrent.futures.process import BrokenProcessPool
from fractions import Fraction

ROOT = pathlib.Path(__file__).resolve().parent.parent
EVIDENCE = ROOT / 'evidence'
KNOWN_FINDINGS = ROOT / 'known_findings.txt'
PROCESSES = min(8, os.cpu_count() or 1)
MEMORY_LIMIT = 3 << 30
# a check has to answer within 900 s whatever happens
QUICK_DEADLINE = 600.


class Stats(Counter):
    """
    states, transitions: nodes and edges of the trees of choices visited;
    executions, ok, reject, ...: outcomes of executions
    """


class Report:
    """what a job gives back"""

    def __init__(self):
        self.stats = Stats()
        self.violations = []
        self.samples = []
        self.truncated = []
        self.notes = []

    def violation(self, problem, replay):
        self.violations.append({'problem': problem, 'replay': replay})


def merge(reports):
    result = Report()
    for report in reports:
        result.stats.update(report.stats)
        result.violations += report.violations
        if len(result.samples) < 12:
            result.samples += report.samples[:2]
        result.truncated += report.truncated
        result.notes += [
            note for note in report.notes if note not in result.notes
        ]
    return result


def _initialize():
    from . import explorer
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
    sys.setrecursionlimit(1000)
    explorer.guard()


def _call(function, job):
    try:
        return function(job)
    except BaseException:
        report = Report()
        report.notes.append('job crashed: ' + traceback.format_exc()[-1500:])
        report.stats['crashed_jobs'] += 1
        return report


def run_jobs(function, jobs, deadline, processes=PROCESSES):
    """`function` maps a job to a report, jobs are picklable"""
    jobs = list(jobs)
    reports = []
    pool = ProcessPoolExecutor(processes, initializer=_initialize)
    futures = [pool.submit(_call, function, job) for job in jobs]
    failed = False
    try:
        for future in as_completed(futures, timeout=deadline):
            try:
                reports.append(future.result())
            except BrokenProcessPool:
                failed = True
                break
            if sum(len(report.violations) for report in reports) >= 20:
                break
    except TimeoutError:
        report = Report()
        report.notes.append(f'stopped after {deadline} s')
        report.stats['unfinished_jobs'] += sum(
            not future.done() for future in futures
        )
        reports.append(report)
    for future in futures:
        future.cancel()
    workers = list((pool._processes or {}).values())
    pool.shutdown(wait=False, cancel_futures=True)
    for worker in workers:
        # either idle or no more of interest
        worker.kill()
    if failed:
        report = Report()
        report.notes.append('a worker process died')
        report.stats['dead_workers'] += 1
        reports.append(report)
    return merge(reports)


# -- (de)serialization of scenarios -----------------------------------------

def encode(value):
    if isinstance(value, Fraction):
        return {'f': str(value)}
    if isinstance(value, tuple):
        return {'t': [encode(item) for item in value]}
    if isinstance(value, list):
        return [encode(item) for item in value]
    if isinstance(value, dict):
        return {'d': {key: encode(item) for key, item in value.items()}}
    if isinstance(value, int) and abs(value) > 1 << 62:
        return {'i': hex(value)}
    return value


def decode(value):
    if isinstance(value, dict):
        [(tag, content)] = value.items()
        if tag == 'f':
            return Fraction(content)
        if tag == 't':
            return tuple(decode(item) for item in content)
        if tag == 'i':
            return int(content, 16)
        return {key: decode(item) for key, item in content.items()}
    if isinstance(value, list):
        return [decode(item) for item in value]
    return value


# -- known findings -----------------------------------------------------------

def known_findings(property_id):
    """
    lines `property=<id> key=<key> <what fails>`; lines starting with `fixed:`
    and comments suppress nothing
    """
    result = {}
    if KNOWN_FINDINGS.exists():
        for line in KNOWN_FINDINGS.read_text().splitlines():
            if line.startswith(f'property={property_id} key='):
                key, _, text = (
                    line.partition(' key=')[2].partition(' ')
                )
                result[key] = text
    return result


def finish(
    property_id, tier, report, started, *, title, rule, assumptions, extra=None,
):
    """writes evidence, prints verdict, returns exit code"""
    EVIDENCE.mkdir(exist_ok=True)
    known = known_findings(property_id)
    violations, findings = [], {}
    for violation in report.violations:
        key = violation['replay'].get('key')
        if key is not None and key in known:
            findings[key] = known[key]
        else:
            violations.append(violation)
    replay_path = EVIDENCE / f'replay-{property_id}.json'
    if violations:
        replay_path.write_text(json.dumps(
            {'property': property_id, **violations[0]['replay'],
             'problem': violations[0]['problem']}, indent=1, default=repr,
        ))
    elif replay_path.exists():
        replay_path.unlink()
    stats = dict(report.stats)
    evaluations = stats.get('evaluations', stats.get('executions', 0))
    exhaustive = not (
        report.truncated
        or stats.get('unfinished_jobs')
        or stats.get('crashed_jobs')
        or stats.get('dead_workers')
        or report.violations
    )
    counts = {
        'states': stats.get('states', 0),
        'transitions': stats.get('transitions', 0),
        'traces_validated_against_impl': stats.get('validated', 0),
    }
    for name, count in (
        ('evaluations', evaluations),
        ('distinct_nontrivial', stats.get('distinct', stats.get('ok', 0))),
    ):
        # no count is given under two names
        if count not in counts.values():
            counts[name] = count
    evidence = {
        'property': property_id,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '0') or 0),
        'level': 'model_checking',
        'wall_s': round(time.monotonic() - started, 2),
        'coverage': {
            **counts,
            'rule': rule,
            'exhaustive': exhaustive,
            'samples': report.samples[:12] or ['none'],
            'statistics': {
                name: count for name, count in stats.items()
                if name not in ('states', 'transitions', 'evaluations',
                                'validated', 'distinct')
                and count not in counts.values()
            },
            'truncated': report.truncated[:20],
            'notes': report.notes[:20],
            'problems': [
                violation['problem'] for violation in violations[:20]
            ],
            **(extra or {}),
        },
        'assumptions': assumptions,
        'violations': len(violations),
    }
    (EVIDENCE / f'{property_id}.json').write_text(
        json.dumps(evidence, indent=1, default=repr) + '\n'
    )
    print(f'{property_id} {title} [{tier}]')
    print(f'  {stats}')
    for note in report.notes[:10]:
        print('  note:', note)
    for item in report.truncated[:10]:
        print('  truncated:', item)
    for text in findings.values():
        print(f'KNOWN-FINDING: property={property_id} {text}')
    if violations:
        for violation in violations[:5]:
            print('  ', violation['problem'])
            print('    ', json.dumps(violation['replay'], default=repr)[:1500])
        print(f'VIOLATION property={property_id} replay={replay_path}')
        return 1
    if evaluations == 0 or stats.get('crashed_jobs'):
        # no verdict
        print('machinery failed or nothing was explored')
        return 2
    print('  held on everything explored')
    return 0
