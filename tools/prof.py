"""Profiles one case: python3-vt tools/prof.py C16 0 [seconds]"""
import cProfile, pstats, sys, os, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import run
class Conn:
    def send(self, x): self.x = x
    def close(self): pass
mod = 'checks.' + sys.argv[1].lower()
run.prepare(mod)
c = run.PREPARED[mod][2].cases('quick')[int(sys.argv[2])]
conn = Conn()
secs = float(sys.argv[3]) if len(sys.argv) > 3 else 15
p = cProfile.Profile()
p.enable()
run.case_worker(conn, mod, c[0], c[1], {'samples': 0}, time.time() + secs, 1)
p.disable()
pstats.Stats(p).sort_stats('tottime').print_stats(25)
pstats.Stats(p).sort_stats('cumtime').print_stats(45)
