"""Writes DESIGN.md: tools/design_head.md, then per property how it is decided (ORACLES below, bounds from the harnesses,
cost from the last evidence), findings, and the planted bugs with what catches them."""
import json, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from properties import PROPERTIES, NOT_CLAIMED
from oracles import ORACLES


def path(*names):
    return os.path.join(ROOT, *names)


out = [open(path('tools', 'design_head.md')).read().rstrip(), '']
out += ['## The properties, one by one', '',
    '*Oracle*: what the assertions compare with. *Bounds*: what is symbolic, and how far (numbers in parentheses: the thorough tier).',
    '*Cost*: paths explored to the end and replayed, solver queries, wall time of the quick check on 8 cores.', '']
sources = {}
for f in sorted(os.listdir(path('harness'))):
    if f.endswith('.py'):
        source = open(path('harness', f)).read()
        for cid, rest in re.findall(r"@harness\('(C\d+)'(.*?)(?=\n@harness|\Z)", source, re.S):
            m = re.search(r'\ndef (\w+)\(.*?\):\n    """(.*?)"""', rest, re.S)
            sources.setdefault(cid, []).append((m.group(1), ' '.join(m.group(2).split())))
costs = json.load(open(path('tools', 'costs.json'))) if os.path.exists(path('tools', 'costs.json')) else {}
for p in PROPERTIES:
    cid = p['id']
    try:
        e = json.load(open(path('evidence', cid + '.json')))
        c = e['coverage']
        if e['tier'] == 'quick' and set(k.split('.')[1] for k in c['bounds']) == set(n for n, t in sources[cid]):
            costs[cid] = '%d paths, %d queries, %.0f s of solver time, %d functions of scheme entered' % (
                c['states'], c['solver']['queries'], c['solver']['seconds'], len(c['functions_encoded']))
    except FileNotFoundError:
        pass
    out += ['### %s %s' % (cid, p['title']), '', ORACLES[cid].strip(), '']
    for name, text in sources[cid]:
        out.append('* `%s`: %s' % (name, text))
    out += ['', 'Cost: %s.' % costs.get(cid, 'not measured'), '']
json.dump(costs, open(path('tools', 'costs.json'), 'w'), indent=0, sort_keys=True)
out += ['## Not applicable', '']
for p in NOT_CLAIMED:
    out.append('* **%s %s**: %s.' % (p['id'], p['title'], p['reason']))
out += ['', '## Genuine defects', '', 'All found by the checks on the tree as it was given, each repaired by its own `fix:` commit and listed in',
    '`known_findings.txt` (no finding is recorded without repair, so that no check prints KNOWN-FINDING):', '']
for line in open(path('known_findings.txt')):
    m = re.match(r'(fixed|known): property=(C\d+) (\S+) (.*)', line)
    if m:
        out.append('* %s %s (%s): %s' % (m.group(2), m.group(1), m.group(3), m.group(4)))
out += ['', open(path('tools', 'design_tail.md')).read().rstrip(), '', '## Planted bugs', '',
    'Each is in `seeded/<id>/` with its demonstration; `tools/bugs.py` holds them as data, `tools/plant.py` verifies and writes',
    'them, `tools/catch.py` runs the property\'s quick check against each.', '',
    '| bug | what it breaks | caught by its check |', '|---|---|---|']
caught = json.load(open(path('tools', 'catch.json')))
for bug in sorted(os.listdir(path('seeded'))):
    meta = json.load(open(path('seeded', bug, 'meta.json')))
    out.append('| %s | %s | %s |' % (bug, meta['what_it_breaks'].replace('|', '/'),
        {True: 'yes', False: '**no**', None: 'not run'}[caught.get(bug)]))
open(path('DESIGN.md'), 'w').write('\n'.join(out) + '\n')
