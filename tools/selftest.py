"""Setup: nothing to build; checks that the tools the checks need are there."""
import subprocess, sys
import z3
x = z3.Int('x')
s = z3.Solver()
s.add(x > 1, x < 3)
assert s.check() == z3.sat and s.model()[x].as_long() == 2
subprocess.run(['/opt/venv/bin/python', '-c', 'import Crypto, sqlalchemy, bcrypt'], check=True)
print('ok')
