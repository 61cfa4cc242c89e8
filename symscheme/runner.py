"""Explores the harnesses of a property, replays every path's model on the real code."""
import glob
import json
import os
import subprocess
import random as random_module
import sys
import threading
import time
import traceback
import multiprocessing
import multiprocessing.connection

from . import api, rt
from .core import Explorer, EngineError, EngineSignal, PathAbort
from .loader import Loader
from .rewrite import instrument
from .source import Symbolic, canon_model, input_values

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYPY = '/opt/venv-pypy/bin/python'
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def harness_files():
    return sorted(glob.glob(os.path.join(ROOT, 'harness', 'c*.py')))


def files_for(property):
    """The harness files that define checks of this property."""
    out = []
    for path in harness_files():
        with open(path, encoding='utf-8') as f:
            if ("@harness('%s'" % property) in f.read():
                out.append(path)
    return out


class Replayer(object):
    def __init__(self, files):
        self.files = files
        self.proc = None

    def start(self):
        env = dict(os.environ, TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
        self.proc = subprocess.Popen([PYPY, os.path.join(ROOT, 'symscheme', 'replay_server.py')]
            + list(self.files), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE if not os.environ.get('VERIF_DEBUG') else None,
            env=env, universal_newlines=True)
        if self.proc.stderr is not None:
            self.errors = []
            t = threading.Thread(target=self._drain, daemon=True)
            t.start()
        line = self.proc.stdout.readline()
        if line.strip() != 'ready':
            raise RuntimeError('replay server did not start: %r %s' % (line,
                ''.join(getattr(self, 'errors', []))[-2000:]))

    def _drain(self):
        for line in self.proc.stderr:
            self.errors.append(line)
            del self.errors[:-200]

    def ask(self, request):
        if self.proc is None or self.proc.poll() is not None:
            self.start()
        try:
            self.proc.stdin.write(json.dumps(request) + '\n')
            self.proc.stdin.flush()
            line = self.proc.stdout.readline()
        except (BrokenPipeError, OSError):
            line = ''
        if not line:
            self.proc = None
            return {'fatal': 'the replay process died'}
        return json.loads(line)

    def stop(self):
        if self.proc is not None:
            try:
                self.proc.stdin.close()
                self.proc.wait(timeout=5)
            except Exception:
                self.proc.kill()


def load_harnesses(loader, files):
    before = set(api.REGISTRY)
    for path in files:
        with open(path, encoding='utf-8') as f:
            source = f.read()
        name = os.path.basename(path)[:-3]
        env = dict(api.CONSTANTS)
        env.update(__name__=name, __file__=path, __rt__=rt, __builtins__=loader.builtins,
            __package__='', fresh=loader.fresh)
        exec(instrument(source, path, None), env)
    return [api.REGISTRY[k] for k in api.REGISTRY if k not in before]


# Further values per path to compare with the real code (a test of the engine, not part of a check).
SOAK = int(os.environ.get('SYMSCHEME_SOAK', '0'))
random = random_module.Random(int(os.environ.get('SYMSCHEME_SOAK_SEED', '1')))


def other_model(ex, m, random):
    """A model of the path with its inputs as far from those of ``m`` as chance takes them."""
    exprs = []
    for name, desc in ex.inputs.items():
        if desc[0] == 'int':
            exprs.append((desc[1], None))
        elif desc[0] != 'float':
            exprs.extend((c.expr, c.dom) for c in desc[1] if type(c) is not int)
    random.shuffle(exprs)
    ex.solver.push()
    try:
        for e, dom in exprs:
            for attempt in range(3):
                if dom is not None:
                    v = random.choice(sorted(dom))
                else:
                    v = m.eval(e, model_completion=True).as_long() + random.randint(-40, 40)
                r, found = ex.check(e == v)
                if r:
                    m = found
                    ex.solver.add(e == v)
                    break
    finally:
        ex.solver.pop()
    return m


def explore(h, variant, tier, deadline, replayer, known_ids, replay=True):
    """Explore one harness variant; returns a plain dict of results."""
    budget = h.quick if tier == 'quick' else h.thorough
    ex = Explorer(max_paths=budget, deadline=deadline,
        timeout_ms=10000 if tier == 'quick' else 30000)
    rt.seen.clear()
    res = {'harness': h.name, 'variant': variant, 'violations': [], 'known': {}, 'mismatches': [],
        'unreproduced': [], 'covers': set(), 'labels': {}, 'validated': 0, 'samples': [],
        'errors': [], 'incomplete': 0}
    t0 = time.time()

    def fn():
        S = Symbolic(ex, tier, variant)
        if h.variants is None:
            return h.fn(S)
        return h.fn(S, variant)

    def guarded():
        try:
            return fn()
        except EngineError as e:
            if str(e).startswith('nondeterministic'):
                raise
            ex.note('engine: %s' % e)
            raise PathAbort('engine: %s' % e)

    def on_path(ex, outcome):
        kind, detail = outcome
        if kind == 'abort' and detail in ('infeasible', 'deadline'):
            return False
        if ex.incomplete:
            res['incomplete'] += 1
        try:
            m = ex.need_model()
        except PathAbort:
            ex.note('a path without a model')
            return False
        except EngineError:
            return False
        if judge(ex, kind, detail, m):
            return True
        for i in range(SOAK):
            if judge(ex, kind, detail, other_model(ex, m, random)):
                return True
        return False

    def judge(ex, kind, detail, m):
        inputs, choices = input_values(ex, m)
        request = {'harness': h.name, 'variant': variant, 'tier': tier, 'inputs': inputs,
            'choices': choices}
        failing = [(l, k) for l, r, k in ex.checks if not r]
        for l, r, k in ex.checks:
            res['labels'][l] = res['labels'].get(l, 0) + 1
        if kind != 'abort':
            res['covers'] |= ex.cover
        exc = None
        if kind == 'raised':
            exc = type(detail).__name__
        if not replay:
            if failing or exc:
                res['violations'].append((failing, exc, request))
                if exc:
                    res['errors'].append(''.join(traceback.format_exception(detail))[-3000:])
            return False
        answer = replayer.ask(request)
        if 'fatal' in answer:
            res['errors'].append('replay: %s on %s' % (answer['fatal'], json.dumps(request)))
            return len(res['errors']) > 5
        real_failing = [(l, k) for l, r, k in answer['checks'] if not r]
        real_exc = answer['exc']
        if real_exc in ('Infeasible', 'Divergence'):
            if failing or exc:
                res['unreproduced'].append((failing, exc, real_exc, request))
            elif kind != 'abort':
                res['mismatches'].append(('%s in the replay' % real_exc, request))
            return False
        bad = [(l, k) for l, k in real_failing if k not in known_ids]
        for l, k in real_failing:
            if k in known_ids:
                res['known'].setdefault(k, (l, request))
        if bad or real_exc:
            label = bad[0][0] if bad else 'uncaught %s' % real_exc
            predicted = label in [l for l, k in failing] or (real_exc and real_exc == exc)
            res['violations'].append((label, bool(predicted), request))
            return len(res['violations']) >= 25
        if exc or [l for l, k in failing if l not in [x for x, y in real_failing]]:
            text = exc
            if exc:
                text = ''.join(traceback.format_exception(detail))[-3000:]
            res['unreproduced'].append((failing, text, None, request))
            return len(res['unreproduced']) >= 25
        if kind == 'abort':
            return False
        mine = [(l, r) for l, r, k in ex.checks]
        theirs = [(l, r) for l, r, k in answer['checks']]
        if mine != theirs:
            res['mismatches'].append(('checks %r / %r' % (mine[:6], theirs[:6]), request))
            return False
        obs = [(n, canon_model(v, m)) for n, v in ex.obs]
        for (n1, a), (n2, b) in zip(obs, answer['obs']):
            if n1 != n2 or (a != b and '*' not in a):
                res['mismatches'].append(('observation %s: %s / %s' % (n1, a, b), request))
                return False
        res['validated'] += 1
        if len(res['samples']) < 2:
            res['samples'].append({'harness': h.name, 'variant': variant, 'inputs': inputs,
                'choices': choices, 'observed': answer['obs'][:6]})
        return False

    try:
        exhausted = ex.run(guarded, on_path)
    except EngineSignal as e:
        res['errors'].append('engine: %s: %s' % (h.name, e))
        exhausted = False
    res['exhausted'] = exhausted and not ex.stats.aborted and not ex.stats.unknown \
        and not res['incomplete']
    res['stats'] = ex.stats.asdict()
    res['notes'] = dict(ex.notes)
    res['functions'] = sorted(rt.seen)
    res['covers'] = sorted(res['covers'])
    res['wall'] = time.time() - t0
    return res


def _worker(conn, files, tier, deadline, known_ids):
    def body():
        replayer = Replayer(files)
        try:
            while True:
                task = conn.recv()
                if task is None:
                    break
                name, variant = task
                try:
                    r = explore(api.REGISTRY[name], variant, tier, deadline, replayer, known_ids)
                except BaseException:
                    r = {'harness': name, 'variant': variant, 'crash': traceback.format_exc()}
                conn.send(r)
        except (EOFError, KeyboardInterrupt):
            pass
        finally:
            replayer.stop()
    sys.setrecursionlimit(9000)
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=body)
    t.start()
    t.join()


def run_tasks(tasks, files, tier, deadline, known_ids, progress=None):
    """Run (harness name, variant) tasks on forked workers; yields result dicts."""
    ctx = multiprocessing.get_context('fork')
    tasks = list(tasks)
    workers = {}
    for i in range(min(WORKERS, len(tasks))):
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(b, files, tier, deadline, known_ids))
        p.start()
        b.close()
        workers[a] = (p, None)
    pending = list(tasks)
    live = 0
    for conn in list(workers):
        if pending:
            task = pending.pop(0)
            conn.send(task)
            workers[conn] = (workers[conn][0], task)
            live += 1
    results = []
    while live:
        for conn in multiprocessing.connection.wait(list(workers)):
            p, task = workers[conn]
            try:
                r = conn.recv()
            except EOFError:
                r = {'harness': task[0] if task else '?', 'variant': task and task[1],
                    'crash': 'worker process died'}
                del workers[conn]
                results.append(r)
                live -= 1
                continue
            results.append(r)
            if progress:
                progress(r)
            if pending:
                task = pending.pop(0)
                conn.send(task)
                workers[conn] = (p, task)
            else:
                conn.send(None)
                live -= 1
                del workers[conn]
                conn.close()
    for task in pending:
        results.append({'harness': task[0], 'variant': task[1], 'crash': 'no worker left'})
    return results
