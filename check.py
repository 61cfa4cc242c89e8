#!/usr/bin/env python3-vt
"""check.py ID [--tier quick|thorough] [--only HARNESS] [-v] | --replay FILE

Decides one property by symbolic execution of /repo's current source.
"""
import argparse
import json
import os
import sys
import time
import warnings

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
os.environ['TZ'] = 'UTC'
time.tzset()


def known_findings(property):
    """{id: description} of the open findings of this property."""
    out = {}
    path = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('known:'):
                    fields = line[6:].split(None, 2)
                    if fields[0] == 'property=' + property:
                        out[fields[1].split('=', 1)[1]] = fields[2]
    return out


def replay(path):
    from symscheme import runner
    with open(path) as f:
        data = json.load(f)
    r = runner.Replayer(runner.files_for(data['property']))
    os.environ['VERIF_DEBUG'] = '1'
    request = dict(data['request'], traceback=True)
    answer = r.ask(request)
    r.stop()
    print('harness  %s variant %s' % (request['harness'], request.get('variant')))
    print('inputs   %s' % json.dumps(request['inputs']))
    print('choices  %s' % json.dumps(request['choices']))
    if 'fatal' in answer:
        print('fatal: ' + answer['fatal'])
        return 2
    bad = 0
    for label, ok, known in answer['checks']:
        print('  %s %s%s' % ('holds ' if ok else 'FAILS ', label, ' (%s)' % known if known else ''))
        bad += not ok
    for name, value in answer['obs']:
        print('  observed %s = %s' % (name, value))
    if answer['exc']:
        print('  uncaught exception: %s' % answer['exc'])
        bad += 1
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--seconds', type=float)
    ap.add_argument('-v', action='store_true')
    args = ap.parse_args()
    if args.replay:
        return replay(args.replay)
    prop = args.property
    tier = args.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    limit = args.seconds or (400 if tier == 'quick' else 3300)
    deadline = t0 + limit

    sys.setrecursionlimit(9000)
    from symscheme import runner, api, rt
    from symscheme.loader import Loader
    files = runner.files_for(prop)
    if not files:
        print('no harness for %s' % prop)
        return 2
    loader = Loader(extra=[os.path.join(ROOT, 'harness')])
    for name in ('scheme', 'scheme.formats', 'hlib'):
        loader.import_(name, fromlist=('x',))
    runner.load_harnesses(loader, files)
    mine = [h for h in api.REGISTRY.values() if h.property == prop]
    if args.only:
        mine = [h for h in mine if args.only in h.name]
    tasks = [(h.name, v) for h in mine for v in h.variants_for(tier)]
    known = known_findings(prop)

    def progress(r):
        if args.v:
            if 'crash' in r:
                print(r['crash'])
                return
            s = r['stats']
            print('%-44s %-28s paths %5d aborted %3d infeasible %3d queries %6d %6.1fs%s viol %d '
                'unrep %d mism %d valid %d' % (r['harness'], str(r['variant'])[:28], s['paths'],
                s['aborted'], s['infeasible'], s['queries'], r['wall'],
                '' if r['exhausted'] else ' PARTIAL', len(r['violations']),
                len(r['unreproduced']), len(r['mismatches']), r['validated']))
            for k, n in r['notes'].items():
                print('      note: %s (%d)' % (k, n))
            for x in r['violations'][:8]:
                print('      VIOL', x[0], json.dumps(x[2]['inputs']), json.dumps(x[2]['choices']))
            for x in r['unreproduced'][:5]:
                print('      UNREPRODUCED', x[0], x[1], x[2], json.dumps(x[3]['inputs']),
                    json.dumps(x[3]['choices']))
            for x in r['mismatches'][:5]:
                print('      MISMATCH', x[0], json.dumps(x[1]['inputs']), json.dumps(x[1]['choices']))
            for x in r['errors'][:5]:
                print('      ERROR', x)
            sys.stdout.flush()

    results = runner.run_tasks(tasks, files, tier, deadline, set(known), progress)
    return report(prop, tier, seed, mine, results, known, loader, t0, args)


def report(prop, tier, seed, mine, results, known, loader, t0, args):
    errors = []
    violations = []
    hit = {}
    totals = {}
    functions = set()
    per = []
    validated = mismatches = 0
    samples = []
    exhaustive = True
    for r in results:
        if 'crash' in r:
            errors.append('%s %s: %s' % (r['harness'], r['variant'], r['crash']))
            exhaustive = False
            continue
        for k, v in r['stats'].items():
            totals[k] = totals.get(k, 0) + v
        functions.update(r['functions'])
        validated += r['validated']
        mismatches += len(r['mismatches'])
        samples.extend(r['samples'][:1])
        exhaustive = exhaustive and r['exhausted']
        for label, predicted, request in r['violations']:
            violations.append((r['harness'], label, predicted, request))
        for u in r['unreproduced']:
            errors.append('counterexample did not reproduce on the real code: %s %s %s %s' % (
                u[0], u[1], u[2], json.dumps(u[3])))
        errors.extend(r['errors'])
        for k, (label, request) in r['known'].items():
            hit.setdefault(k, (label, request))
        per.append({'harness': r['harness'], 'variant': r['variant'],
            'paths': r['stats']['paths'], 'exhausted': r['exhausted'], 'checks': r['labels'],
            'validated': r['validated'], 'wall_s': round(r['wall'], 2), 'notes': r['notes'],
            'encoding_mismatches': [m[0] for m in r['mismatches'][:3]]})
    for h in mine:
        mineres = [r for r in results if r['harness'] == h.name and 'crash' not in r]
        reached = set(c for r in mineres for c in r['covers'])
        missing = [c for c in h.covers if c not in reached]
        if mineres and not any(r['stats']['paths'] for r in mineres):
            errors.append('%s: no path completed' % h.name)
        elif missing and not any(r['violations'] for r in mineres) and \
                all(r['exhausted'] for r in mineres):
            errors.append('%s: vacuous, never reached %s' % (h.name, missing))

    os.makedirs(os.path.join(ROOT, 'evidence', 'replays'), exist_ok=True)
    shown = {}
    for name, label, predicted, request in violations:
        key = (name, label)
        if key in shown or len(shown) >= 8:
            continue
        path = os.path.join(ROOT, 'evidence', 'replays', '%s-%d.json' % (prop, len(shown)))
        with open(path, 'w') as f:
            json.dump({'property': prop, 'label': label, 'request': request}, f, indent=1)
        shown[key] = path
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s  inputs %s choices %s' % (name, label, json.dumps(request['inputs']),
            json.dumps(request['choices'])))
    for k in sorted(hit):
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, k, known[k]))
    wall = time.time() - t0
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': totals.get('paths', 0),
            'transitions': totals.get('forks', 0) + totals.get('choices', 0)
                + totals.get('forced', 0),
            'traces_validated_against_impl': validated,
            'samples': samples[:12],
            'exhaustive': bool(exhaustive),
            'meaning': 'states: symbolic path classes explored to the end; transitions: branch '
                'decisions the solver settled; traces: path models replayed under PyPy on the '
                'uninstrumented code with identical outcome',
            'solver': {'queries': totals.get('queries', 0), 'unknown': totals.get('unknown', 0),
                'seconds': round(totals.get('solver_time', 0), 2)},
            'assertions_decided': totals.get('checks', 0),
            'paths_cut_short': totals.get('aborted', 0),
            'infeasible_paths': totals.get('infeasible', 0),
            'case_splits_on_values': totals.get('concretized', 0),
            'encoding_mismatches': mismatches,
            'functions_encoded': sorted(functions),
            'source_files': sorted(loader.files),
            'bounds': dict((h.name, h.bounds) for h in mine),
            'runs': per,
        },
        'assumptions': [
            'C-implemented library code (time, binascii, _csv, io, expat) is represented by models '
            'in symscheme/models, validated against the real modules by the replays',
            'symbolic text ranges over a finite alphabet (ASCII plus selected other characters) '
            'and a bounded length, per harness',
        ],
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    with open(os.path.join(ROOT, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(evidence, f, indent=1, default=str)
    print('%s %s: %d paths, %d replays agree, %d queries, solver %.1fs, %d violations, %d '
        'mismatches%s, wall %.1fs' % (prop, tier, totals.get('paths', 0), validated,
        totals.get('queries', 0), totals.get('solver_time', 0), len(violations), mismatches,
        '' if exhaustive else ', not exhausted', wall))
    if violations:
        return 1
    if errors:
        for e in errors[:10]:
            print('ERROR', e)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
