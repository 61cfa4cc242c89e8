"""Plants the bugs of tools/bugs.py: writes seeded/<id>/ for those that build, pass the tests and are
shown by their demonstration.   python3 tools/plant.py [ID...]   (SCHEME_REPO: the repository)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SCHEME_REPO', '/repo')
PYTHON = '/opt/venv-pypy/bin/python'
ENV = dict(os.environ, LANG='C.UTF-8', TZ='UTC', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
    PYTHONPYCACHEPREFIX='/nonexistent')

sys.path.insert(0, os.path.join(ROOT, 'tools'))
from bugs import BUGS

HEAD = '''import sys, os
sys.path.insert(0, os.getcwd())
from scheme import *
from scheme.exceptions import *
'''
DEMO = '''#!/bin/bash
export LANG=C.UTF-8 TZ=UTC PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent
exec /opt/venv-pypy/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def run(command, cwd):
    return subprocess.run(command, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        universal_newlines=True, timeout=300)


def main(ids):
    bad = 0
    scratch = tempfile.mkdtemp(prefix='plant')
    for bug in BUGS:
        if ids and bug['id'] not in ids:
            continue
        repo = os.path.join(scratch, 'repo')
        shutil.copytree(REPO, repo)
        folder = os.path.join(scratch, bug['id'])
        os.mkdir(folder)
        try:
            with open(os.path.join(folder, 'demo.py'), 'w') as f:
                f.write(HEAD + bug['demo'].lstrip('\n'))
            with open(os.path.join(folder, 'demo.sh'), 'w') as f:
                f.write(DEMO)
            os.chmod(os.path.join(folder, 'demo.sh'), 0o755)
            before = run(['bash', os.path.join(folder, 'demo.sh')], repo)
            if before.returncode:
                raise Exception('demo fails on the unchanged tree:\n' + before.stdout[-600:])
            for path, old, new in bug['edits']:
                full = os.path.join(repo, path)
                with open(full) as f:
                    text = f.read()
                if text.count(old) != 1:
                    raise Exception('%d matches in %s of %r' % (text.count(old), path, old))
                with open(full, 'w') as f:
                    f.write(text.replace(old, new))
            after = run(['bash', os.path.join(folder, 'demo.sh')], repo)
            if not after.returncode:
                raise Exception('demo passes with the change')
            tests = run([PYTHON, '-m', 'pytest', 'tests', '-q', '-p', 'no:cacheprovider', '-W', 'ignore'],
                repo)
            last = tests.stdout.strip().split('\n')[-1]
            if tests.returncode or '244 passed' not in last:
                raise Exception('tests: ' + ' '.join(l for l in tests.stdout.split('\n') if l.startswith('FAILED'))[:300])
            diff = subprocess.run(['git', 'diff'], cwd=repo, stdout=subprocess.PIPE,
                universal_newlines=True).stdout
            original = set()
            for path, old, new in bug['edits']:
                original |= set(l.strip() for l in run(['git', 'show', 'eefcbf8:' + path], repo).stdout.split('\n'))
            removed = [l[1:].strip() for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
            if removed and not [l for l in removed if l and l in original]:
                raise Exception('changes no line of the original')
            with open(os.path.join(folder, 'patch.diff'), 'w') as f:
                f.write(diff)
            with open(os.path.join(folder, 'meta.json'), 'w') as f:
                json.dump({'property': bug['property'], 'needs': bug['needs'],
                    'what_it_breaks': bug['what']}, f, indent=1)
                f.write('\n')
            target = os.path.join(ROOT, 'seeded', bug['id'])
            shutil.rmtree(target, ignore_errors=True)
            shutil.copytree(folder, target)
            print('ok   %s (%s)' % (bug['id'], after.stdout.strip().split('\n')[-1][:100]))
        except Exception as e:
            bad += 1
            print('BAD  %s: %s' % (bug['id'], e))
        finally:
            shutil.rmtree(repo)
            shutil.rmtree(folder)
    shutil.rmtree(scratch)
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
