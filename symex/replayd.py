"""Replay service: runs harnesses on the real code under the project's own interpreter, one forked child per request."""
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)


def preload(names):
    for n in names:
        try:
            importlib.import_module(n)
        except Exception:
            pass


def run_one(req, scratch):
    from symex import conctx
    from models import concrete as cmodels
    mod = importlib.import_module(req['module'])
    ctx = conctx.ConCtx(req['inputs'], scratch)
    cmodels.install(scratch, ctx)
    try:
        getattr(mod, req['harness'])(ctx, **req['params'])
        out = {'status': 'ok'}
    except conctx.Ignored:
        out = {'status': 'ignored'}
    except conctx.ConcreteViolation as e:
        out = {'status': 'violation', 'label': str(e)}
    except ImportError as e:
        # of something the stand-ins for ladon and the log set-up do not have
        known = any((e.name or '').startswith(x) for x in ('ladon', 'hgaa.log'))
        out = {'status': 'error' if known else 'violation', 'label': 'uncaught ' + type(e).__name__, 'detail': str(e)}
    except RecursionError as e:
        out = {'status': 'violation', 'label': 'uncaught RecursionError'}
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        inside = any(f.filename.startswith(REPO + '/') for f in tb)
        out = {'status': 'violation' if inside else 'error', 'label': 'uncaught ' + type(e).__name__,
               'detail': ''.join(traceback.format_exception(e))[-1500:]}
    out['obs'] = ctx.obs
    out['checks'] = ctx.checks
    return out


def serve():
    first = json.loads(sys.stdin.readline())
    from models import concrete as cmodels
    cmodels.stubs()
    preload(first.get('preload', []))
    out = os.fdopen(os.dup(1), 'w')
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        scratch = tempfile.mkdtemp(prefix='vreplay.')
        pid = os.fork()
        if pid == 0:
            os.close(r)
            signal.alarm(int(req.get('timeout', 60)))
            try:
                res = run_one(req, scratch)
            except BaseException as e:
                res = {'status': 'error', 'label': 'replay failed: %r' % (e,), 'obs': [], 'checks': 0,
                       'detail': traceback.format_exc()[-1500:]}
            data = json.dumps(res).encode()
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        _, st = os.waitpid(pid, 0)
        shutil.rmtree(scratch, ignore_errors=True)
        if not data:
            hung = os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM
            data = json.dumps({'status': 'violation' if hung else 'error',
                               'label': 'does not terminate' if hung else 'replay crashed', 'obs': [], 'checks': 0}).encode()
        out.write(data.decode() + '\n')
        out.flush()


if __name__ == '__main__':
    serve()
