''' Regenerate MANIFEST.json from the check modules and properties.jsonl. '''
import ast, json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {
    'C30': 'Infeasible for any execution-based exploration: the algorithm evaluates h^(D*R) for constants of the curve complex (millions of applications, distances > 60 in the curve graph) before giving an answer, on every input; no bounded state space of real runs exists.',
}
DEFAULT_NOTE = 'Every case in the stated finite bounds is enumerated and each model answer is compared with the real code; trusts the reference model (mc/ref.py) and the bounds (small surfaces, bounded weights/word lengths).'
props = [json.loads(l)['id'] for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, claimed = [], set()
for name in sorted(os.listdir(os.path.join(ROOT, 'mc/checks'))):
    if not (name.startswith('c') and name[1:3].isdigit()): continue
    pid = name.split('_')[0].upper()
    consts = {}
    for node in ast.parse(open(os.path.join(ROOT, 'mc/checks', name)).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and isinstance(node.value, ast.Constant):
            consts[node.targets[0].id] = node.value.value
    claimed.add(pid)
    checks.append({
        'property': pid,
        'quick_cmd': f'bin/check {pid} --tier quick',
        'thorough_cmd': f'bin/check {pid} --tier thorough',
        'technique': consts.get('TECHNIQUE', 'explicit-state enumeration against a reference model, replayed on the implementation'),
        'level': 'model_checking',
        'level_note': consts.get('LEVEL_NOTE', DEFAULT_NOTE)})
na = [{'property': p, 'reason': NOT_APPLICABLE.get(p, 'not built yet')} for p in props if p not in claimed]
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na,
    'notes': 'No hooks: every check drives the public API of the sources in /repo. Replay a violation with bin/replay FILE. known_findings.txt lists recorded findings (finding:) and repaired defects (fixed:).'},
    open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
