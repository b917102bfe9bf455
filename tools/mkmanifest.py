#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import ast
tables = {}
for node in ast.parse(open(os.path.join(root, 'check.py')).read()).body:
    if isinstance(node, ast.Assign) and node.targets[0].id in ('FAMS', 'MODELS'):
        tables[node.targets[0].id] = ast.literal_eval(node.value)

def technique(p):
    models = sorted({m[0] for m in tables['MODELS'][p]})
    fams = [f[0] for f in tables['FAMS'][p]]
    return ('TLA+ specification checked with TLC: the behaviours of the bounded model%s %s are replayed into the library; '
            'recorded runs of the library (%s) are validated against the same specification'
            % ('s' if len(models) > 1 else '', ', '.join(models), ', '.join(fams)))
props = [json.loads(x)['id'] for x in open(os.path.join(root, 'properties.jsonl'))]
NOTE = ('Bounded: the TLA+ models are checked exhaustively by TLC within the bounds in their cfg files and every behaviour they '
        'enumerate is replayed into the library; recorded runs of the library on seeded inputs are validated against the same '
        'specification. Trusted: TLC, the CommunityModules, and the projection of library values to JSON in harness/src/proj.rs.')
m = {
    'version': 1,
    'setup_cmd': 'cd harness && CARGO_TARGET_DIR=target cargo build --offline',
    'checks': [{
        'property': p,
        'quick_cmd': 'python3 check.py %s quick' % p,
        'thorough_cmd': 'python3 check.py %s thorough' % p,
        'technique': technique(p),
        'level': 'model_checking',
        'level_note': NOTE,
    } for p in props],
    'not_applicable': [],
}
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
