"""Builds /verif/seeded/<id>/ from a description: seed.py SPEC.py
   SPEC.py defines id, property, edits [(file, old, new)], demo (python text), needs, breaks; optional files {name: text}.
   Keeps it only if the stable tests pass with the change and the demonstration tells the two trees apart."""
import json, os, runpy, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open('/opt/vp/BASELINE.json'))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')


def run_tests(tree):
    out = os.path.join(tree, '..', 'junit.xml')
    subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--continue-on-collection-errors', '-n0' if False else '-q',
                    '-o', 'junit_family=xunit2', '--junitxml=' + out, 'hgaa', 'hgpl'], cwd=tree, env=ENV, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    res = out + '.json'
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', res, 'junit:' + out], stdout=subprocess.DEVNULL)
    return json.load(open(res))


def main(spec, tests=True):
    s = runpy.run_path(spec)
    tmp = tempfile.mkdtemp(prefix='seedwt.')
    try:
        wt = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', wt, symlinks=True)
        os.makedirs(os.path.join(wt, 'hgaa', 'logs'), exist_ok=True)
        for f, old, new in s['edits']:
            p = os.path.join(wt, f)
            t = open(p, newline='').read()
            crlf = '\r\n' in t
            if crlf:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w', newline='').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=wt, capture_output=True).stdout
        d = os.path.join(tmp, 'out')
        os.makedirs(d)
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write('import os, sys\nsys.path.insert(0, os.getcwd())\nsys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))\n' + s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 200 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        for n, t in s.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(t)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=wt, capture_output=True, text=True)
        if a.returncode != 0 or b.returncode == 0:
            print(s['id'], 'DEMO', a.returncode, b.returncode, a.stdout[-400:], a.stderr[-800:], b.stderr[-300:])
            return 1
        if tests:
            r = run_tests(wt)
            want = BASE['stable']
            got = set(r.get('passed', []))
            missing = [t for t in want if t not in got]
            if missing:
                print(s['id'], 'TESTS FAIL', missing[:5], len(missing))
                return 1
        out = os.path.join(HERE, 'seeded', s['id'])
        if os.path.exists(out):
            shutil.rmtree(out)
        shutil.copytree(d, out)
        print(s['id'], 'kept')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return 0


if __name__ == '__main__':
    sys.exit(max(main(x) for x in sys.argv[1:]))
