"""Concrete replay: the real libraries, with the clock, the random numbers, the database location and file writes under the
control of the harness.  Stand-ins only for what is not installed (ladon) or writes log files when imported (hgaa.log)."""
import builtins
import io
import json
import os
import random as _random
import sys
import time
import types

from . import shared

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CTX = None
SCRATCH = None
WORLD = None

_real_open = builtins.open
_real_time = time.time
_getsize, _exists, _isfile, _isdir = os.path.getsize, os.path.exists, os.path.isfile, os.path.isdir
_makedirs, _mkdir, _remove = os.makedirs, os.mkdir, os.remove
REPO = os.environ.get('VERIF_REPO', '/repo')


def keys():
    ks = json.load(_real_open(os.path.join(HERE, 'fixtures', 'keys.json')))
    for k in ks:
        k['pub'] = k['pub'].encode()
        k['priv'] = k['priv'].encode()
        k['der'] = bytes.fromhex(k['der'])
    return ks


class World(object):
    def __init__(self):
        self.quarters = None
        self.ticks = 0
        self.step = 4
        self.readings = 0
        self.fixed = None
        self.files = []            # [name given by the code, redirected path]
        self.engines = []
        self.generated = 0
        self.foreign_keys = False
        self.action = None

    def arrange(self, action, kinds=None):
        self.action, self.kinds, self.happened = action, kinds, False

    def stop(self):
        self.action = None
        return self.happened

    def event(self, kind):
        if self.action is not None and (self.kinds is None or kind in self.kinds) and CTX.bool('here'):
            f, self.action, self.happened = self.action, None, True
            f()

    def fix_random(self, first):
        self.fixed = first

    # clock
    def set_now(self, quarters, ticks=0, step=4, once=False):
        self.at = CTX.pick('tick at', list(range(1, ticks + 1))) if once else None
        self.quarters, self.ticks, self.step, self.readings = quarters, ticks, step, 0

    def ensure(self):
        if self.quarters is None:
            self.set_now(CTX.int('now', 4 * 10 ** 9, 4 * 2 * 10 ** 9))

    def read(self):
        self.event('clock')
        self.ensure()
        if self.at is not None:
            if self.readings == self.at:
                self.quarters += CTX.int('tick', 1, self.step)
        elif self.readings > 0 and self.ticks > 0:
            self.ticks -= 1
            self.quarters += CTX.int('tick', 0, self.step)
        self.readings += 1
        return self.quarters

    def now(self):
        self.ensure()
        return self.quarters // 4

    def now_quarters(self):
        self.ensure()
        return self.quarters

    # keys
    def key(self, i):
        from Crypto.PublicKey import RSA
        return RSA.import_key(keys()[i]['priv'])

    def pem(self, i): return keys()[i]['pub']
    def der(self, i): return keys()[i]['der']
    def private_pem(self, i): return keys()[i]['priv']

    # files
    def path(self, name): return os.path.join(SCRATCH, name)

    def add_file(self, name, content):
        path = os.path.join(SCRATCH, name)
        with _real_open(path, 'wb') as f:
            f.write(content)
        return path

    def redirect(self, path, create):
        p = os.path.normpath(os.path.abspath(os.fspath(path)))
        if p == SCRATCH or p.startswith(SCRATCH + '/'):
            return p
        for name, target in self.files:
            if name == p:
                return target
        if not create:
            return None
        target = os.path.join(SCRATCH, 'written.%d' % len(self.files))
        self.files.append((p, target))
        return target

    def written(self):
        return [_real_open(t, 'rb').read() for _, t in self.files]

    def hash_password(self, password):
        import bcrypt
        return bcrypt.hashpw(password.encode('utf-8'), bcrypt.gensalt(4)).decode('ascii')

    def sha256(self, data):
        import hashlib
        return hashlib.sha256(bytes(data)).digest()

    def verify(self, i, data, signature):
        from Crypto.PublicKey import RSA
        from Crypto.Signature import pkcs1_15
        from Crypto.Hash import SHA256
        try:
            pkcs1_15.new(RSA.import_key(keys()[i]['pub'])).verify(SHA256.new(bytes(data)), bytes(signature))
            return True
        except ValueError:
            return False

    def sign(self, i, data):
        from Crypto.Signature import pkcs1_15
        from Crypto.Hash import SHA256
        return pkcs1_15.new(self.key(i)).sign(SHA256.new(bytes(data)))

    def gmtime(self, secs):
        st = time.gmtime(secs)
        return dict(year=st.tm_year, mon=st.tm_mon, mday=st.tm_mday, hour=st.tm_hour, min=st.tm_min, sec=st.tm_sec,
                    wday=st.tm_wday, yday=st.tm_yday)

    def names(self):
        import calendar
        return list(calendar.day_name), list(calendar.month_name)[1:]


def world():
    global WORLD
    if WORLD is None:
        WORLD = World()
    return WORLD


# -- hooks ---------------------------------------------------------------------------------------------------------

def now_seconds():
    if CTX is None:
        return _real_time()
    return world().read() / 4


def my_open(file, mode='r', *a, **k):
    if CTX is not None and isinstance(file, (str, bytes, os.PathLike)):
        writes = any(c in mode for c in 'wax+')
        t = world().redirect(os.fsdecode(file), writes)
        if t is not None:
            world().event('file')
            return _real_open(t, mode, *a, **k)
    return _real_open(file, mode, *a, **k)


def mapped(fn):
    def f(path, *a, **k):
        if CTX is not None and isinstance(path, (str, bytes, os.PathLike)):
            t = world().redirect(os.fsdecode(path), False)
            if t is not None:
                return fn(t, *a, **k)
        return fn(path, *a, **k)
    return f


def no_dir(fn):
    """directories are not made outside the scratch directory"""
    def f(path, *a, **k):
        if CTX is not None and not os.path.abspath(os.fsdecode(path)).startswith(SCRATCH):
            return None
        return fn(path, *a, **k)
    return f


def random_int(a, b):
    w = world()
    w.event('random')
    if w.fixed is not None:
        w.fixed += 1
        return a + (w.fixed - 1) % (b - a + 1)
    return CTX.int('rand', a, b)


def getrandbits(n):
    if CTX is None:
        return _random.getrandbits(n)
    return random_int(0, 2 ** n - 1)


def randint(a, b):
    if CTX is None:
        return _random.randint(a, b)
    return random_int(a, b)


def rand_bytes(n):
    if CTX is None:
        return os.urandom(n)
    return random_int(0, 256 ** n - 1).to_bytes(n, 'little')


def module(name, attrs):
    m = types.ModuleType(name)
    m.__path__ = []
    m.__dict__.update(attrs)
    sys.modules[name] = m
    parent, _, last = name.rpartition('.')
    if parent in sys.modules:
        setattr(sys.modules[parent], last, m)


def stubs():
    """Once, before any module of the repository is imported."""
    for name, attrs in shared.ladon().items():
        module(name, attrs)
    m = types.ModuleType('hgaa.log')
    m.__dict__.update(shared.log())
    sys.modules['hgaa.log'] = m
    os.environ['TZ'] = 'TST-05:30'
    time.tzset()
    time.time = now_seconds
    time.time_ns = lambda: int(now_seconds() * 4) * 250000000
    gm, lt, sf = time.gmtime, time.localtime, time.strftime
    time.gmtime = lambda t=None: gm(time.time() if t is None else t)
    time.localtime = lambda t=None: lt(time.time() if t is None else t)
    time.strftime = lambda fmt, st=None: sf(fmt, time.localtime() if st is None else st)
    import datetime

    class DateTime(datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(time.time(), tz)

        @classmethod
        def utcnow(cls):
            return cls.fromtimestamp(time.time(), datetime.timezone.utc).replace(tzinfo=None)

        @classmethod
        def today(cls):
            return cls.fromtimestamp(time.time())
    builtins.open = my_open
    io.open = my_open
    os.path.getsize, os.path.exists, os.path.isfile = mapped(_getsize), mapped(_exists), mapped(_isfile)
    os.makedirs, os.mkdir = no_dir(_makedirs), no_dir(_mkdir)
    os.remove = os.unlink = mapped(_remove)
    try:
        import sqlalchemy
        import sqlalchemy.orm
        import sqlalchemy.ext.declarative
        import bcrypt
        from Crypto.Random import random as crandom
        import Crypto.Random
        import Crypto.PublicKey.RSA as RSA
        import Crypto.Signature.pkcs1_15
        import Crypto.Hash.SHA256
    except ImportError:
        return
    from sqlalchemy import event

    def query(state):
        if CTX is not None and not state.is_column_load:
            world().event('query')

    def commit(session):
        if CTX is not None:
            world().event('commit')
    event.listen(sqlalchemy.orm.Session, 'do_orm_execute', query)
    event.listen(sqlalchemy.orm.Session, 'before_commit', commit)
    _checkpw = bcrypt.checkpw

    def checkpw(password, hashed):
        if CTX is not None:
            world().event('password')
        return _checkpw(password, hashed)
    bcrypt.checkpw = checkpw
    _gensalt = bcrypt.gensalt
    bcrypt.gensalt = lambda rounds=12, prefix=b'2b': _gensalt(4 if CTX is not None else rounds, prefix)
    crandom.getrandbits = getrandbits
    crandom.randint = randint
    _generate = RSA.generate

    def generate(bits, randfunc=None, e=65537):
        if CTX is not None:
            fit = [k for k in reversed(keys()) if k['bits'] == bits]
            if fit:
                world().generated += 1
                return RSA.import_key(fit[(world().generated - 1) % len(fit)]['priv'])
        return _generate(bits, randfunc, e)
    RSA.generate = generate
    datetime.datetime = DateTime
    _create = sqlalchemy.create_engine
    made = {}

    def create_engine(url, **k):
        if CTX is None:
            return _create(url, **k)
        u = sqlalchemy.make_url(url)
        key = (SCRATCH, u.render_as_string(False))
        if key not in made:
            from sqlalchemy.pool import NullPool
            world().engines.append(u)
            made[key] = _create('sqlite:///' + os.path.join(SCRATCH, 'db%d.sqlite' % len(made)), poolclass=NullPool)
            if world().foreign_keys:
                sqlalchemy.event.listen(made[key], 'connect', lambda c, _: c.execute('PRAGMA foreign_keys=ON'))
        return made[key]
    sqlalchemy.create_engine = create_engine


def install(scratch, ctx):
    """In the process of one replay."""
    global CTX, SCRATCH, WORLD
    SCRATCH, WORLD, CTX = os.path.realpath(scratch), None, ctx
    del shared.JSONWSPClient.made[:], shared.LadonWSGIApplication.made[:], shared.Server.made[:]
    shared.JSONWSPClient.answer = None
