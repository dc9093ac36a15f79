#!/opt/venv/bin/python
"""check.py <property id> [quick|thorough]"""
import argparse
import os
import pathlib
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent
sys.dont_write_bytecode = True
sys.path[:0] = [str(ROOT), os.environ.get('HG_REPO', '/repo')]
os.environ.setdefault('PYTHONHASHSEED', '0')


def main():
    parser = argparse.ArgumentParser()
    parser.add_argument('property')
    parser.add_argument('tier', nargs='?', default='quick',
                        choices=('quick', 'thorough'))
    arguments = parser.parse_args()
    if os.environ.get('MC_CHILD') != '1':
        # hash-based containers iterate in the same order on each run
        os.environ.update(MC_CHILD='1', PYTHONHASHSEED='0',
                          PYTHONDONTWRITEBYTECODE='1')
        os.execv(sys.executable, [sys.executable, *sys.argv])
    started = time.monotonic()
    from mc import checks
    try:
        code = checks.run(arguments.property, arguments.tier, started)
    except Exception:
        # no verdict
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == '__main__':
    main()
