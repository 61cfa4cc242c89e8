"""Writes properties.jsonl and MANIFEST.json from tools/properties.py and the harness files."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from properties import PROPERTIES, NOT_CLAIMED

claimed = set()
for f in sorted(os.listdir(os.path.join(ROOT, 'harness'))):
    if re.match(r'c\d', f):
        claimed |= set(re.findall(r"@harness\('(C\d+)'", open(os.path.join(ROOT, 'harness', f)).read()))

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as out:
    for p in PROPERTIES + NOT_CLAIMED:
        out.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b}
                for a, b in p['mechanism']], 'observe_at': p.get('observe', ['return values and '
                'exceptions of the public field and format operations']), 'hook_needed': None}}) + '\n')

checks, na = [], []
for p in PROPERTIES:
    if p['id'] in claimed:
        checks.append({'property': p['id'],
            'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
            'technique': 'symbolic execution of the Python source with z3 (path constraints over '
                'strings, integers, IEEE floats), every path model replayed on the real code',
            'level': 'model_checking',
            'level_note': p.get('level_note', 'Every path of the encoded functions within the '
                'bounds of each harness (text lengths, container sizes, schema shapes; stated in '
                'the evidence) is decided by the solver; trusted: the engine, its models of '
                'C-implemented library modules, and the finite text alphabet, each cross-checked '
                'by replaying every path under PyPy on the unmodified repository.')})
    else:
        na.append({'property': p['id'], 'reason': 'no check built yet'})
for p in NOT_CLAIMED:
    na.append({'property': p['id'], 'reason': p['reason']})
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as out:
    json.dump({'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks,
        'not_applicable': na}, out, indent=1)
    out.write('\n')
print('claimed', sorted(claimed))
