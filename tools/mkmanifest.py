"""Generates /verif/MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
NOTES = json.load(open(os.path.join(HERE, 'tools', 'levels.json')))
checks = []
for i in ids:
    level, note = NOTES.get(i, NOTES['default'])
    checks.append(dict(property=i, quick_cmd=f'{PY} vf.py {i} --tier quick', thorough_cmd=f'{PY} vf.py {i} --tier thorough',
                       technique='contract-based deductive verification of the real Python source (symbolic VC generation from the '
                                 'AST of /repo, z3/cvc5), failed obligations replayed on the real code; run-time contract search as stand-in',
                       level=level, level_note=note, evidence_file=f'evidence/{i}.json'))
json.dump(dict(version=1, setup_cmd=f'{PY} tools/setup_check.py', checks=checks, not_applicable=[],
               notes='Verifier: /verif/pyvc (weakest-precondition style symbolic execution with loop invariants and callee contracts); '
                     'contracts: /verif/contracts; runner: /verif/vf.py.'),
          open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
