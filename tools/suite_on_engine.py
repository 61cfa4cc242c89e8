"""Runs the repository's own test suite on the instrumented code (validation of the encoding)."""
import io, json, os, sys, unittest, warnings
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
warnings.simplefilter('ignore')
import inspect
inspect.getargspec = lambda f: inspect.getfullargspec(f)[:4]
from symscheme import loader

L = loader.Loader(extra=['/repo'])
baseline = json.load(open('/opt/vp/BASELINE.json'))
passed, failed = [], []
for f in sorted(os.listdir('/repo/tests')):
    if not (f.startswith('test_') and f.endswith('.py')):
        continue
    name = 'tests.' + f[:-3]
    try:
        m = L.import_(name, fromlist=('x',))
    except Exception as e:
        print('IMPORT', name, repr(e))
        continue
    for k, v in sorted(vars(m).items()):
        if isinstance(v, type) and issubclass(v, unittest.TestCase):
            for t in unittest.defaultTestLoader.loadTestsFromTestCase(v):
                r = unittest.TestResult()
                t.run(r)
                if r.failures or r.errors:
                    failed.append((t.id(), (r.failures + r.errors)[0][1]))
                else:
                    passed.append(t.id())
print(len(passed), 'passed', len(failed), 'failed; baseline', len(baseline['stable']))
for n, tb in failed:
    print(n, '\n   ', tb.strip().splitlines()[-1])
    if '-v' in sys.argv: print(tb)
