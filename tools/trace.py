"""Shows where the paths of one case fork: python3-vt tools/trace.py C19 0 [seconds]"""
import sys, os, time, collections, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
from symex import core
mod = 'checks.' + sys.argv[1].lower()
run.prepare(mod)
where = collections.Counter()
orig_b, orig_r = core.Engine._decide, core.Engine.realize_int
def site(kind):
    fr = [f for f in traceback.extract_stack() if '/verif/symex' not in f.filename and '/verif/tools' not in f.filename and '/verif/run' not in f.filename]
    f = fr[-1]
    g = [x for x in fr if '/repo/' in x.filename]
    return '%s %s:%d | %s' % (kind, os.path.basename(f.filename), f.lineno, '%s:%d' % (os.path.basename(g[-1].filename), g[-1].lineno) if g else '')
def _decide(self, *a, **k):
    q = getattr(self, 'queries', 0)
    n = len(self.trail) if hasattr(self, 'trail') else None
    r = orig_b(self, *a, **k)
    where[site('branch')] += 1
    return r
def realize(self, *a, **k):
    where[site('realize')] += 1
    return orig_r(self, *a, **k)
core.Engine._decide = _decide
core.Engine.realize_int = realize
class Conn:
    def send(self, x): self.x = x
    def close(self): pass
c = run.PREPARED[mod][2].cases('quick')[int(sys.argv[2])]
conn = Conn()
run.case_worker(conn, mod, c[0], c[1], {'samples': 0}, time.time() + float(sys.argv[3] if len(sys.argv) > 3 else 15), 1)
for k, v in where.most_common(25):
    print(v, k)
