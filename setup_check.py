#!/usr/bin/env python3
"""Nothing is built: this only shows that the machinery works here, by deciding one true and one false claim."""
import os
import sys

PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(PY if os.path.exists(PY) else sys.executable, [PY, os.path.abspath(__file__)])

import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import symx  # noqa: E402


def claim(env, wrong):
    a, b = env.num('a', 'int'), env.num('b', 'int')
    m = a if a < b or (wrong and a == 7) else b
    env.require(symx.AND(m <= a, m <= b), 'the smaller one')
    env.cover('both')


def main():
    sys.path.insert(0, '/repo')
    r = symx.explore(claim, {'wrong': False}, time.time() + 60)
    assert r['complete'] and not r['violations'] and r['covered'] == ['both'], r
    r = symx.explore(claim, {'wrong': True}, time.time() + 60, on_violation=lambda v: True)
    assert r['violations'], r
    print('ready: z3 %s, python %s' % (symx.z3.get_version_string(), sys.version.split()[0]))


main()
