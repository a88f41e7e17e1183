#!/opt/venv/bin/python
"""check.py CXX [--tier quick|thorough]      run the check of one property
check.py --replay FILE                     replay a recorded counterexample on the plain code"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') is None:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from symex import driver  # noqa: E402


def main():
    a = sys.argv[1:]
    if a and a[0] == '--replay':
        return driver.replay_file(a[1])
    if len(a) >= 3 and a[1] == '--replay-batch':
        driver.replay_server(a[0], a[2])
        return 0
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    return driver.main(a[0], tier, int(os.environ.get('VERIF_SEED') or 1))


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
