#!/opt/venv/bin/python
"""check.py <property> [--tier quick|thorough] [--replay FILE]"""

import argparse
import importlib
import os
import sys

VENV_PY = '/opt/venv/bin/python'
if os.path.realpath(sys.prefix) != '/opt/venv' and not os.environ.get('VERIF_REEXEC'):
    os.environ['VERIF_REEXEC'] = '1'
    os.execv(VENV_PY, [VENV_PY, *sys.argv])
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, *sys.argv])
for var in ('ESP_IDF_SIZE_FORCE_TERMINAL', 'FORCE_COLOR', 'NO_COLOR', 'COLUMNS', 'PYTHONPATH', 'TTY_COMPATIBLE', 'TTY_INTERACTIVE'):
    os.environ.pop(var, None)
os.environ['LC_ALL'] = 'C.UTF-8'

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))


def run() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None, choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=None)
    ap.add_argument('--replay')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED', '1'))
    import runner

    mod = importlib.import_module(f'checks.{a.prop.lower()}')
    return runner.main(a.prop, mod, tier, seed, a.replay)


if __name__ == '__main__':
    sys.exit(run())
