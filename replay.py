#!/usr/bin/env python3
"""replay.py FILE: run a reported counterexample on the real code in /repo (or $VP_REPO), with ordinary numbers and
without any of the machinery of symbolic execution.  Exit 1: it fails as reported.  Exit 0: it does not."""
import os
import sys

PY = '/opt/venv/bin/python'
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    if not os.path.exists(PY):
        PY = sys.executable
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])

import ast
import fractions
import json

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))


def main():
    with open(sys.argv[1]) as f:
        c = json.load(f)
    import runner
    runner.load_code()
    fn = runner.harness(c['harness'])
    params = ast.literal_eval(c['params'])
    inputs = eval(c['inputs'], {'Fraction': fractions.Fraction, '__builtins__': {}})
    with runner.scratch_dir():
        fails, obs, aborted = runner.native_run(fn, params, inputs)
    print('property %s, %s' % (c['property'], c['task']))
    print('inputs: %r' % (inputs,))
    if aborted:
        print('the inputs do not meet the assumptions')
        return 0
    for l in fails:
        print('FAILED: %s' % l)
    if not fails:
        print('holds')
    return 1 if fails else 0


if __name__ == '__main__':
    sys.exit(main())
