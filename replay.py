#!/opt/venv/bin/python
"""
replay.py <file>: executes a recorded violation again (VIOLATION lines name
such files); exits with 1 if it is still there
"""
import json
import os
import pathlib
import sys

ROOT = pathlib.Path(__file__).resolve().parent
sys.dont_write_bytecode = True
sys.path[:0] = [str(ROOT), os.environ.get('HG_REPO', '/repo')]


def main(path):
    if os.environ.get('MC_CHILD') != '1':
        os.environ.update(MC_CHILD='1', PYTHONHASHSEED='0',
                          PYTHONDONTWRITEBYTECODE='1')
        os.execv(sys.executable, [sys.executable, *sys.argv])
    from mc import (
        calls, classes, driver, explorer, geometry, histories, outcomes,
        replaying, threads,
    )
    content = json.loads(pathlib.Path(path).read_text())
    explorer.guard()
    for key, function in {
        'call': calls.replay, 'classes': classes.replay,
        'history': histories.replay, 'repeated': replaying.replay,
        'concurrent': threads.replay, 'pair': outcomes.replay,
        'witness': outcomes.replay, 'exact': outcomes.replay,
    }.items():
        if key in content:
            problem = function(content)
            break
    else:
        problem, _ = geometry.replay(content)
    print(problem or 'holds')
    return 1 if problem else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
