"""Runs each property's quick check against the changes under seeded/, each in a scratch copy of /repo.
   matrix.py [ID-prefix...]   matrix.py --patch FILE CHECK..."""
import json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(patch, checks):
    tmp = tempfile.mkdtemp(prefix='matrix.')
    try:
        wt = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', wt, symlinks=True)
        if patch:
            subprocess.run(['git', '-C', wt, 'apply', patch], check=True)
        for c in checks:
            t = time.time()
            r = subprocess.run(['python3-vt', os.path.join(HERE, 'run.py'), c], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=wt))
            v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
            yield c, bool(v) and r.returncode == 1, r.returncode, time.time() - t, r.stdout + r.stderr
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main(want):
    if want and want[0] == '--patch':
        for c, hit, rc, dt, out in run(os.path.abspath(want[1]), want[2:]):
            print('%-4s %-8s rc=%d %5.1fs %s' % (c, 'CAUGHT' if hit else 'quiet', rc, dt, out[-300:].replace('\n', ' | ')), flush=True)
        return
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        if want and not any(d.startswith(w) for w in want):
            continue
        p = os.path.join(HERE, 'seeded', d)
        prop = json.load(open(os.path.join(p, 'meta.json')))['property']
        for c, hit, rc, dt, out in run(os.path.join(p, 'patch.diff'), [prop]):
            print('%-28s %-4s %-8s rc=%d %5.1fs %s' % (d, c, 'CAUGHT' if hit else 'MISSED', rc, dt, out[-300:].replace('\n', ' | ') if not hit else ''), flush=True)


main(sys.argv[1:])
