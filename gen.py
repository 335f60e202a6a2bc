#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from lib/props.py."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import props  # noqa: E402


def prop_line(p):
    anchors = {'files': list(p.files), 'mechanism': [{'name': n, 'where': w} for n, w in p.mech]}
    if p.state:
        anchors['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p.state]
    if p.observe:
        anchors['observe_at'] = list(p.observe)
    anchors['hook_needed'] = None
    return {'id': p.id, 'title': p.title, 'statement': p.statement,
            'quantifier': {'over': list(p.over), 'text': p.text}, 'why_tests_cant': p.why, 'anchors': anchors}


def main():
    ps = props.props
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in ps + [p for p, _ in props.NA]:
            f.write(json.dumps(prop_line(p)) + '\n')
    checks = []
    for p in ps:
        checks.append({
            'property': p.id,
            'quick_cmd': 'python3 check.py %s quick' % p.id,
            'thorough_cmd': 'python3 check.py %s thorough' % p.id,
            'technique': 'symbolic execution of the real Python code, every path, assertions decided by Z3',
            'level': 'model_checking',
            'level_note': 'Bounded: %s. Within the bounds every feasible path is visited and each assertion is decided '
                          'by the solver for all values of the path; models of paths are replayed on the real code, '
                          'and so is every counterexample before it is reported. Nothing is claimed beyond the '
                          'bounds. Assumes: %s. Trusts Z3, CPython, and the symbolic numbers of lib/symx.py.'
                          % (p.bounds, '; '.join(p.assume) or 'nothing further'),
        })
    m = {'version': 1, 'setup_cmd': 'python3 setup_check.py', 'checks': checks,
         'not_applicable': [{'property': p.id, 'reason': r} for p, r in props.NA],
         'notes': 'No hooks: the checks import the code from /repo as it is. Defects found and repaired are listed in '
                  'known_findings.txt. See DESIGN.md.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
