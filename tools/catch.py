"""Runs the checks against the planted bugs:   python3 tools/catch.py [ID...]   -> tools/catch.json"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SCHEME_REPO', '/repo')


def one(name):
    folder = os.path.join(ROOT, 'seeded', name)
    with open(os.path.join(folder, 'meta.json')) as f:
        property = json.load(f)['property']
    scratch = tempfile.mkdtemp(prefix='catch')
    try:
        repo = os.path.join(scratch, 'repo')
        shutil.copytree(REPO, repo)
        subprocess.run(['git', 'apply', os.path.join(folder, 'patch.diff')], cwd=repo, check=True)
        verif = os.path.join(scratch, 'verif')
        shutil.copytree(ROOT, verif, ignore=shutil.ignore_patterns('.git', 'seeded', 'evidence'))
        r = subprocess.run(['python3-vt', 'check.py', property], cwd=verif,
            env=dict(os.environ, SCHEME_REPO=repo), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            universal_newlines=True)
        lines = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION') or 'VIOL ' in l]
        caught = r.returncode == 1 and any('VIOLATION property=%s ' % property in l for l in lines)
        return name, property, caught, r.returncode, (lines or [r.stdout[-300:]])[0][:200]
    finally:
        shutil.rmtree(scratch)


def main(names):
    names = names or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    path = os.path.join(ROOT, 'tools', 'catch.json')
    results = {}
    if os.path.exists(path):
        with open(path) as f:
            results = json.load(f)
    with ThreadPoolExecutor(3) as pool:
        for name, property, caught, code, line in pool.map(one, names):
            results[name] = caught
            print('%-6s %-34s %s exit %d %s' % ('caught' if caught else 'MISSED', name, property, code, line),
                flush=True)
    results = dict((k, v) for k, v in results.items()
        if os.path.exists(os.path.join(ROOT, 'seeded', k)))
    with open(path, 'w') as f:
        json.dump(results, f, indent=1, sort_keys=True)
        f.write('\n')


if __name__ == '__main__':
    main(sys.argv[1:])
