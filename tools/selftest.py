"""setup_cmd: nothing to build; make sure the parts the checks need work."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import z3
from vf import sym, engine, models, loader, simfs, simdb
x = z3.Int('x')
s = z3.Solver()
s.add(x > 3, x < 5)
assert s.check() == z3.sat and s.model()[x].as_long() == 4
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import sqlite3'])
print('ok: z3 %s' % z3.get_version_string())
