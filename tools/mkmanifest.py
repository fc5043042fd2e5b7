#!/usr/bin/env python3
"""Writes MANIFEST.json from the properties that have a harness."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
TECH = 'bounded symbolic execution of the real Python source, assertions decided by z3, counterexamples replayed'
NOTE = ('Holds for every input within the bounds stated in the evidence file (all paths explored, each assertion decided by '
        'z3). %sTrusts z3, the symbolic-value engine (witnesses of decided paths are replayed on the real package on every '
        'run) and, where the property does not concern them, pandas/numpy themselves, which run concretely.')
EXTRA = {
    'C01': 'Real arithmetic: rounding and overflow are outside; exp/log known by algebraic laws and positivity. ',
    'C02': 'Real arithmetic: rounding and overflow are outside; exp/log known by algebraic laws and positivity. ',
    'C03': 'Real arithmetic, plus bit-precise IEEE double arithmetic for the sampling kernels at small sizes. ',
    'C04': 'Thread schedules are iteration orders plus absence of conflicting accesses; the random generator is modelled as '
           'an arbitrary function of (seed, position). ',
}
REASONS = {}


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        if os.path.exists(os.path.join(HERE, 'harness', p.lower() + '.py')):
            checks.append(dict(property=p, quick_cmd='%s check.py %s --tier quick' % (PY, p),
                               thorough_cmd='%s check.py %s --tier thorough' % (PY, p), technique=TECH,
                               level='model_checking', level_note=NOTE % EXTRA.get(p, '')))
        else:
            na.append(dict(property=p, reason=REASONS.get(p, 'the check is not built yet')))
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')


main()
