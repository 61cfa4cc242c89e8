"""Runs under PyPy: replays solver models against the uninstrumented repository code."""
import json
import os
import shutil
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SCHEME_REPO', '/repo')
sys.path[:] = [REPO, ROOT, os.path.join(ROOT, 'harness')] + [
    p for p in sys.path if p not in ('', os.path.dirname(os.path.abspath(__file__)))]
sys.dont_write_bytecode = True
sys.setrecursionlimit(2000)

from symscheme import api


def fresh(name, **stand_ins):
    """A further instance of a module, for which stand-ins replace some of the modules it imports."""
    from importlib.util import find_spec, module_from_spec
    spec = find_spec(name)
    saved = {k: sys.modules.get(k) for k in stand_ins}
    sys.modules.update(stand_ins)
    try:
        m = module_from_spec(spec)
        spec.loader.exec_module(m)
    finally:
        for k, v in saved.items():
            if v is None:
                del sys.modules[k]
            else:
                sys.modules[k] = v
    return m


def load(path):
    env = dict(api.CONSTANTS)
    env['fresh'] = fresh
    env['__name__'] = os.path.basename(path)[:-3]
    env['__file__'] = path
    with open(path, encoding='utf-8') as f:
        source = f.read()
    exec(compile(source, path, 'exec'), env)
    return env


class Scratch(object):
    def __init__(self):
        self.path = None

    def __call__(self):
        if self.path is None:
            self.path = tempfile.mkdtemp(prefix='scheme-replay-')
        return self.path

    def clean(self):
        if self.path is not None:
            shutil.rmtree(self.path, ignore_errors=True)
            self.path = None


def run(request):
    h = api.REGISTRY[request['harness']]
    scratch = Scratch()
    S = api.Concrete(request['inputs'], request['choices'], request['tier'],
        request.get('variant'), scratch)
    exc = None
    try:
        if h.variants is None:
            h.fn(S)
        else:
            h.fn(S, S.variant)
    except api.Infeasible:
        exc = 'Infeasible'
    except api.Divergence as e:
        exc = 'Divergence'
    except Exception as e:
        exc = type(e).__name__
        if request.get('traceback'):
            import traceback
            traceback.print_exc()
    finally:
        scratch.clean()
    return {'checks': S.checks, 'obs': S.obs, 'cover': S.covered, 'exc': exc}


def main():
    out = os.fdopen(os.dup(1), 'w', 1)
    os.dup2(2, 1)
    sys.stdout = sys.stderr
    for path in sys.argv[1:]:
        load(path)
    out.write('ready\n')
    out.flush()
    for line in iter(sys.stdin.readline, ''):
        request = json.loads(line)
        try:
            response = run(request)
        except BaseException as e:
            response = {'fatal': '%s: %s' % (type(e).__name__, e)}
        out.write(json.dumps(response) + '\n')
        out.flush()


main()
