"""Where a harness forks and case-splits (diagnostics): profile_harness.py NAME [variant]"""
import collections, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ['TZ'] = 'UTC'; time.tzset()
from symscheme import runner, api, rt, core, values
from symscheme.loader import Loader
name = sys.argv[1]
prop = name.split('.')[0]
files = runner.files_for(prop)
loader = Loader(extra=[os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')])
for n in ('scheme', 'scheme.formats', 'hlib'):
    loader.import_(n, fromlist=('x',))
runner.load_harnesses(loader, files)
h = api.REGISTRY[name]
variant = json.loads(sys.argv[2]) if len(sys.argv) > 2 else (h.variants_for('quick')[0])
where = collections.Counter()
def site(kind):
    fs = [f for f in traceback.extract_stack() if 'symscheme/core' not in f.filename and 'symscheme/values' not in f.filename and 'symscheme/rt' not in f.filename and 'symscheme/symre' not in f.filename and 'tools/' not in f.filename]
    inner = [f for f in traceback.extract_stack() if 'symscheme/' in f.filename][-4:-1]
    return kind + ' ' + ' < '.join('%s:%s' % (os.path.basename(f.filename), f.lineno) for f in reversed(fs[-3:])) + ' | ' + inner[0].name + '/' + inner[-1].name
orig = core.Explorer._record
def rec(self, d):
    if d.alt or d.kind == 'fork' and not d.forced:
        where[site(d.kind)] += 1
    return orig(self, d)
core.Explorer._record = rec
oc = values.concretize_formula
def cf(pick, eq):
    where[site('CONC')] += 1
    return oc(pick, eq)
values.concretize_formula = cf
rt.concretize_formula = cf
sys.setrecursionlimit(9000)
r = runner.explore(h, variant, 'quick', time.time() + 60, None, set(), replay=False)
print(r['stats'], r['wall'], r['notes'], r['exhausted'])
for k, n in where.most_common(25): print(n, k)
for x in r['errors'][:3]: print(x)
