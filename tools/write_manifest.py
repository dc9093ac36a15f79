"""source of /verif/MANIFEST.json"""
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
STATELESS = (
    'stateless model checking of the real strategies: depth-first enumeration '
    'of all sequences of choices within budgets'
)
TREE = (
    'Every choice a strategy makes (integers, collections, orders, random '
    'objects) is a choice point owned by the explorer; all executions within '
    'the budgets of deviations are run on the code of /repo. '
)
TECHNIQUES = {
    'C12': (
        'exhaustive enumeration of a grid of calls against a reference model',
        'All combinations of bounds from a grid around the minimums (-1, 0, '
        'minimum +- 1, absent, ...) for one, two and all the pairs of bounds '
        'of each strategy; verdict of the call is compared to that of an '
        'executable model of the validation.',
    ),
    'C13': (
        'exhaustive enumeration of calls against a reference model; '
        'comparison of exhaustively enumerated sets of outcomes',
        'Grid of calls as in C12 with the warnings compared to the model; '
        'sets of geometries generated with too low and with raised bounds '
        'are enumerated and compared.',
    ),
    'C15': (
        'enumeration of choice sequences, each repeated under other hashes, '
        'strategies and processes',
        TREE + 'Each execution is repeated with the same and new strategies, '
        'under salted hashes of points and of internal objects, by stock '
        'Hypothesis, in processes with other hash seeds.',
    ),
    'C16': (
        'exhaustive enumeration of operation histories up to a depth, each '
        'in a forked process',
        'Operations (new/shared strategy draws, interrupted and refused '
        'draws, rejected calls): all pairs and triples from alphabets per '
        'kind and across kinds run in forked processes; long histories '
        'contain each word of three operations (de Bruijn sequences). '
        'Outcomes are compared to those of pristine processes.',
    ),
    'C17': (
        'enumeration of schedules of two real threads under a controlled '
        'scheduler up to a preemption bound',
        'Preemption bound 1 over choice points and executed lines of the '
        'library (first and last executions of each), bound 2 over choice '
        'points, plus nested draws; outcomes are compared to sequential '
        'ones.',
    ),
    'C18': (
        'exhaustive search for witnesses in bounded trees of choices',
        TREE + 'For each requested size or composition the tree is searched '
        'with widening budgets until a witness is found.',
    ),
    'C19': (
        'unbounded enumeration of all choices over finite domains, compared '
        'to the set known in advance',
        TREE + 'No budgets are needed: the trees are finite. Sets are equal '
        'to those built by an independent reference.',
    ),
    'C20': (
        'stateless model checking with several contexts of custom classes '
        'used by turns',
        TREE + 'Classes of each part are compared with those of the context, '
        'six contexts (derived, standalone, partly replaced, default '
        'classes) are used by turns in a process.',
    ),
    'C21': (
        'comparison of exhaustively enumerated sets of outcomes',
        TREE + 'Sets of geometries generated with and without the y strategy '
        'are enumerated within the same budgets and compared.',
    ),
}
properties = [
    json.loads(line)
    for line in (ROOT / 'properties.jsonl').read_text().splitlines()
]
checks = []
for item in properties:
    id_ = item['id']
    technique, note = TECHNIQUES.get(id_, (
        STATELESS,
        TREE + 'Each generated value is judged by an exact, independent '
        'geometric oracle. Coordinates domains, sizes and budgets are '
        'bounded as listed in DESIGN.md.',
    ))
    checks.append({
        'property': id_,
        'quick_cmd': f'/opt/venv/bin/python check.py {id_} quick',
        'thorough_cmd': f'/opt/venv/bin/python check.py {id_} thorough',
        'evidence_file': f'evidence/{id_}.json',
        'technique': technique,
        'level': 'model_checking',
        'level_note': note,
    })
manifest = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -c "import hypothesis, ground"',
    'checks': checks,
    'not_applicable': [],
    'notes': (
        'Checks import the library from /repo working tree (pure Python, '
        'nothing is built). No hooks: /repo carries only fix commits. '
        'replay.py executes recorded violations again.'
    ),
}
(ROOT / 'MANIFEST.json').write_text(json.dumps(manifest, indent=1) + '\n')
