#!/usr/bin/env python3
'''Write MANIFEST.json from properties.jsonl and the contracts there are.'''
import ast
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {
    'C25': 'interleavings of several processes on a shared folder and SQLite database: contracts of sequential functions say nothing of '
           'interference, and a rely/guarantee proof would rest wholly on assumed contracts of SQLite locking and the file system',
}
LATER = 'no contract within reach yet'


def const(path, name, default):
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id == name if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) else False:
            return ast.literal_eval(n.value)
    return default


def main():
    props = [json.loads(x) for x in open(HERE + '/properties.jsonl')]
    checks, na = [], []
    for p in props:
        i = p['id']
        path = f'{HERE}/contracts/{i}.py'
        if os.path.exists(path):
            note = const(path, 'LEVEL_NOTE', 'every obligation of the contracts on the functions of this property is discharged from the '
                         'current source on each run, for all inputs and all iterations; trusted: the pyded interpreter, the solvers and the '
                         'models of external functions listed in the evidence')
            checks.append(dict(
                property=i,
                quick_cmd=f'python3-vt check.py {i} --tier quick',
                thorough_cmd=f'python3-vt check.py {i} --tier thorough',
                evidence_file=f'evidence/{i}.json',
                technique=const(path, 'TECHNIQUE', 'contract-based deductive verification: contracts on the functions in /repo, verification conditions '
                                'generated from the current source by symbolic execution with loop invariants, discharged by z3/cvc5'),
                level=const(path, 'LEVEL', 'proof'),
                level_note=note))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, LATER)))
    m = dict(version=1, setup_cmd='python3-vt selftest/cpython.py && python3-vt selftest/symbolic.py', checks=checks, not_applicable=na,
             notes='pyded/ is the verifier, contracts/Cxx.py the contracts, drivers/Cxx.py replays/searches failing inputs on the real code')
    json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
