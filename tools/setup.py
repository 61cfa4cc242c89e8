"""setup_cmd: nothing to build; verifies that the interpreters and libraries are usable."""
import os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
import z3
s = z3.Solver(); x = z3.Int('x'); s.add(x > 2); assert s.check() == z3.sat
subprocess.check_call(['/opt/venv-pypy/bin/python', '-c', 'import jinja2, yaml'])
print('ok: z3', z3.get_version_string())
