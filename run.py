#!/usr/bin/env python3
"""python3-vt run.py PROPERTY [--replay FILE]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
os.chdir(HERE)
from javascript_ids import JAVASCRIPT_IDS
IMPL = 'js' if len(sys.argv) > 1 and sys.argv[1] in JAVASCRIPT_IDS else 'python'
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('VERIF_IMPL') != IMPL:
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['VERIF_IMPL'] = IMPL
    os.execv(sys.executable, [sys.executable] + sys.argv)
import engine, importlib

MODULES = ['parsing', 'queries', 'values', 'state', 'reports', 'positions', 'cost', 'threads', 'both', 'catalogs']
if IMPL == 'js':
    MODULES = ['javascript']


def find(id):
    for m in MODULES:
        if not os.path.exists(os.path.join(HERE, 'checks', m + '.py')):
            continue
        cls = getattr(importlib.import_module(m), id, None)
        if cls is not None:
            return cls()
    sys.exit(f'no check for {id}')


if __name__ == '__main__':
    sys.exit(engine.main(find(sys.argv[1]), sys.argv[2:]))
