#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
T = {
    'ref': 'symbolic execution of the compiled decoder (rustc LLVM IR) against a reference decoder executed alongside; Z3 decides every branch and assertion',
    'self': 'symbolic execution of the compiled decoder (rustc LLVM IR), two runs on one symbolic input compared; Z3 decides every branch and assertion',
    'safe': 'symbolic execution of the compiled decoder (rustc LLVM IR); every reachable panic, trap, invalid access and exhausted bound is a violation; Z3 decides every branch',
    'cli': 'symbolic execution of the compiled command line program (rustc LLVM IR) with file system and output stubbed; Z3 decides every branch and assertion',
}
KIND = {'C17': 'safe', 'C18': 'safe', 'C25': 'safe', 'C20': 'self', 'C21': 'safe', 'C24': 'self', 'C26': 'cli', 'C27': 'self', 'C28': 'self', 'C29': 'self', 'C30': 'safe', 'C31': 'safe'}
NOTE = ('Bounded: every value of the symbolic bytes of each listed template is covered (all paths, no unrolling bound inside the template); inputs outside the templates are not. '
        'Counterexamples and a sample of explored paths are replayed against the native build. Trusts rustc, LLVM, Z3, the symbolic executor in symex/')
EXTRA = {
    'ref': ' and the reference decoder in harness/src/spec.rs.', 'self': '.', 'safe': '.', 'cli': ' and the stand-ins for clap, patharg and the output streams in cli/ (compared with the real program on a sample).',
}
NA = {}
checks, na = [], []
for i in ids:
    if i in NA:
        na.append({'property': i, 'reason': NA[i]})
        continue
    k = KIND.get(i, 'ref')
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough python3 check.py {i}', 'evidence_file': f'evidence/{i}.json',
                   'technique': T[k], 'level': 'model_checking', 'level_note': NOTE + EXTRA[k]})
m = {'version': 1, 'setup_cmd': 'python3 check.py --build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the harness crate uses the public API only. Every check rebuilds the IR and the native replayers from the current tree of /repo.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
