"""Clock and file system of the symbolic execution, and what a harness sees of them (World)."""
import math
import io
import os
import threading

import z3
from symex import calls, values as V
from symex.core import engine, Unsupported
from symex.values import SymBytes, SymStr, SymByteArray, SymInt, SymFloat, SymChoice, Seq, mkint, mkbool, is_sym
from . import symbolic as S
from . import sym_crypto as C

DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday', 'Sunday']
MONTHS = ['January', 'February', 'March', 'April', 'May', 'June', 'July', 'August', 'September', 'October', 'November',
          'December']
ZONE = 5 * 3600 + 1800          # the local zone of the harnesses is not GMT


class QFloat(SymFloat):
    """A number of quarter seconds since the epoch, as a float."""
    __slots__ = ('num',)

    def __init__(self, num):
        self.num = V.z(num)
        super().__init__(z3.ToReal(self.num) / 4)

    def to_int(self):
        return mkint(z3.If(self.num >= 0, self.num / 4, -((-self.num) / 4)))

    def _op(self, o, f):
        if type(o) is QFloat:
            return QFloat(V.z(V.norm(f(self.num, o.num))))
        if type(o) in (int, SymInt, bool):
            return QFloat(V.z(V.norm(f(self.num, 4 * V.z(V.term(o))))))
        if type(o) is float and o * 4 == int(o * 4):
            return QFloat(V.z(V.norm(f(self.num, z3.IntVal(int(o * 4))))))
        raise Unsupported('float arithmetic')

    def __add__(self, o): return self._op(o, lambda a, b: a + b)
    __radd__ = __add__
    def __sub__(self, o): return self._op(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._op(o, lambda a, b: b - a)

    def __mul__(self, o):
        if type(o) is int:
            return QFloat(V.z(V.norm(self.num * o)))
        raise Unsupported('float arithmetic')
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return QFloat(V.z(V.norm(4 * (self.num / (4 * o)))))
        raise Unsupported('float arithmetic')

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return QFloat(V.z(V.norm(self.num % (4 * o))))
        raise Unsupported('float arithmetic')

    def __floor__(self): return mkint(self.num / 4)
    def __ceil__(self): return mkint(-((-self.num) / 4))
    def __trunc__(self): return self.to_int()

    def __round__(self, n=None):
        if n is not None:
            raise Unsupported('rounding to digits')
        q, r = self.num / 4, self.num % 4
        return mkint(z3.If(r < 2, q, z3.If(r > 2, q + 1, z3.If(q % 2 == 0, q, q + 1))))

    def is_integer(self):
        return mkbool(self.num % 4 == 0)


class STime(object):
    """struct_time"""
    FIELDS = ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour', 'tm_min', 'tm_sec', 'tm_wday', 'tm_yday', 'tm_isdst')

    def __init__(self, secs, zone):
        e = V.z(secs)
        days, rest = e / 86400, e % 86400
        d = V.engine().known_int(days)
        if d is not None:
            days, rest = z3.IntVal(d), e - d * 86400
        zz = days + 719468
        era = zz / 146097
        doe = zz % 146097
        yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365
        doy = doe - (365 * yoe + yoe / 4 - yoe / 100)
        mp = (5 * doy + 2) / 153
        mon = z3.If(mp < 10, mp + 3, mp - 9)
        year = yoe + era * 400 + z3.If(mon <= 2, 1, 0)
        leap = z3.And(year % 4 == 0, z3.Or(year % 100 != 0, year % 400 == 0))
        self.tm_year = mkint(year)
        self.tm_mon = mkint(mon)
        self.tm_mday = mkint(doy - (153 * mp + 2) / 5 + 1)
        self.tm_hour = mkint(rest / 3600)
        self.tm_min = mkint((rest % 3600) / 60)
        self.tm_sec = mkint(rest % 60)
        self.tm_wday = mkint((days + 3) % 7)
        self.tm_yday = mkint(z3.If(mp < 10, doy + 60 + z3.If(leap, 1, 0), doy - 305))
        self.tm_isdst = 0
        self.tm_zone = zone
        self.tm_gmtoff = 0 if zone == 'GMT' else ZONE

    def __getitem__(self, i):
        return [getattr(self, f) for f in self.FIELDS][i]

    def __iter__(self):
        return iter(self[:])

    def __len__(self):
        return 9


def whole(t):
    if type(t) is QFloat:
        return V.term(t.__floor__())
    if type(t) in (int, SymInt):
        return V.term(t)
    if type(t) is float:
        return math.floor(t)
    raise Unsupported('time of another kind of number')


class Clock(object):
    """now: quarter seconds at the first reading; later readings may be later if ticks are allowed."""

    def __init__(self, now, ticks=0, step=4, once=False):
        self.cur = now
        self.ticks = ticks
        self.at = None
        if once:                   # one of the next `ticks` readings, and only that, is later
            self.at = S.CTX.pick('tick at', list(range(1, ticks + 1)))
        self.step = step
        self.readings = 0

    def read(self):
        world().event('clock')
        if self.at is not None:
            if self.readings == self.at:
                self.cur = V.norm(V.z(self.cur) + S.CTX.int('tick', 1, self.step).e)
        elif self.readings > 0 and self.ticks > 0:
            self.ticks -= 1
            self.cur = V.norm(V.z(self.cur) + S.CTX.int('tick', 0, self.step).e)
        self.readings += 1
        return self.cur

    def time(self):
        return QFloat(self.read())

    def time_ns(self):
        return mkint(V.z(self.read()) * 250000000)

    def gmtime(self, t=None):
        return STime(whole(self.time() if t is None else t), 'GMT')

    def localtime(self, t=None):
        return STime(V.norm(V.z(whole(self.time() if t is None else t)) + ZONE), 'TST')

    def strftime(self, fmt, st=None):
        if st is None:
            st = self.localtime()
        if type(fmt) is not str:
            fmt = fmt.realize()
        r = ''
        i = 0
        while i < len(fmt):
            if fmt[i] != '%':
                r = r + fmt[i]
                i += 1
                continue
            p = self.part(fmt[i + 1], st)
            if i == 0 and len(fmt) == 2:
                return p
            r = r + calls.to_text(p)
            i += 2
        return r

    def part(self, c, st):
        if type(st) is not STime:
            raise Unsupported('strftime of another kind of time')

        def names(ns, v, first):
            if type(v) is int:
                return ns[v - first]
            return SymChoice([(v.e == k + first, n) for k, n in enumerate(ns)])

        def digits(v, n):
            e = V.z(V.term(v))
            return SymStr.make([V.norm(48 + (e / 10 ** (n - 1 - k)) % 10) for k in range(n)])
        if c == 'A':
            return names(DAYS, st.tm_wday, 0)
        if c == 'a':
            return names([d[:3] for d in DAYS], st.tm_wday, 0)
        if c == 'B':
            return names(MONTHS, st.tm_mon, 1)
        if c == 'b':
            return names([m[:3] for m in MONTHS], st.tm_mon, 1)
        if c == '%':
            return '%'
        if c == 'Z':
            return st.tm_zone
        f = {'Y': ('tm_year', 4), 'm': ('tm_mon', 2), 'd': ('tm_mday', 2), 'H': ('tm_hour', 2), 'M': ('tm_min', 2),
             'S': ('tm_sec', 2), 'j': ('tm_yday', 3)}.get(c)
        if f is None:
            raise Unsupported('strftime %' + c)
        return digits(getattr(st, f[0]), f[1])


class Lazy(object):
    """The clock before a harness sets one."""

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(world().clock, n)


# -- files -------------------------------------------------------------------------------------------------------

class VFile(object):
    def __init__(self, fs, entry, mode):
        self.fs = fs
        self.entry = entry
        self.mode = mode
        self.name = entry['path']
        self.pos = 0
        self.closed = False
        self.buf = []
        if 'w' in mode or 'x' in mode:
            entry['cells'] = []
        if 'b' not in mode and '+' in mode:
            raise Unsupported('text mode update')

    def write(self, data):
        if 'w' not in self.mode and 'a' not in self.mode and 'x' not in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation('not writable')
        if 'b' not in self.mode:
            data = data.encode('utf-8')
        c = SymBytes.lift(data)
        if c is None:
            raise TypeError('a bytes-like object is required')
        # buffered: reaches the file with flush() or close()
        self.buf = self.buf + c
        self.fs.log.append(self.entry)
        return V.mkint(Seq._total(c))

    def flush(self):
        self.entry['cells'] = self.entry['cells'] + self.buf
        self.buf = []

    def read(self, n=-1):
        if 'r' not in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation('not readable')
        data = SymBytes.make(self.entry['cells'])
        if type(n) is int and n < 0:
            out = data if self.pos == 0 else data[self.pos:]
            self.pos = calls.py_len(data)
        else:
            out = data[self.pos:self.pos + n]
            self.pos = self.pos + calls.py_len(out)
        return out if 'b' in self.mode else out.decode('utf-8')

    def seek(self, p, whence=0):
        self.flush()
        if whence != 0:
            raise Unsupported('seek')
        self.pos = p
        return p

    def tell(self): return self.pos

    def close(self):
        if not self.closed:
            self.flush()
        self.closed = True

    def __enter__(self): return self
    def __exit__(self, *a): self.close()


class FS(object):
    """Two spellings of a path differ if their leading literal characters differ; otherwise they are compared as texts."""

    def __init__(self):
        self.files = []
        self.log = []

    def find(self, path):
        for e in self.files:
            if self.same(e['path'], path):
                return e
        return None

    @staticmethod
    def same(a, b):
        A, B = SymStr.lift(a), SymStr.lift(b)
        for x, y in zip(A, B):
            if type(x) is int and type(y) is int:
                if x != y:
                    return False
            else:
                break
        return bool(a == b)

    def open(self, path, mode='r', *a, **k):
        if SymStr.lift(path) is None:
            raise Unsupported('open of another kind of path')
        world().event('file')
        e = self.find(path)
        if 'r' in mode:
            if e is None:
                raise FileNotFoundError(2, 'No such file or directory')
        elif e is None:
            e = {'path': path, 'cells': []}
            self.files.append(e)
        elif 'x' in mode:
            raise FileExistsError(17, 'File exists')
        f = VFile(self, e, mode)
        if 'r' not in mode:
            self.log.append(e)
        return f

    def getsize(self, path):
        e = self.find(path)
        if e is None:
            raise FileNotFoundError(2, 'No such file or directory')
        return mkint(Seq._total(e['cells']))

    def exists(self, path):
        return self.find(path) is not None


class World(object):
    def __init__(self):
        self._clock = None
        self.fs = FS()
        self.fixed = None
        self.engines = []          # URLs of the databases connected to
        self.foreign_keys = False  # whether databases connected to from now on enforce them
        self.generated = 0         # keys generated so far
        self.action = None
        self.inside = 0            # > 0 while an arranged action runs

    def arrange(self, action, kinds=None):
        """action() runs once, at any one of the next events (clock readings, random numbers, file openings, password checks,
        database queries and commits), or not at all"""
        self.action, self.kinds, self.happened = action, kinds, False

    def stop(self):
        """no action any more -> whether it has run"""
        self.action = None
        return self.happened

    def event(self, kind):
        if self.action is not None and (self.kinds is None or kind in self.kinds) and bool(S.CTX.bool('here')):
            f, self.action, self.happened = self.action, None, True
            self.inside += 1
            try:
                f()
            finally:
                self.inside -= 1

    def fix_random(self, first):
        """random numbers from now on: first, first + 1, ... (any number within its range otherwise)"""
        self.fixed = first

    @property
    def clock(self):
        if self._clock is None:
            self.set_now(S.CTX.int('now', 4 * 10 ** 9, 4 * 2 * 10 ** 9))
        return self._clock

    def set_now(self, quarters, ticks=0, step=4, once=False):
        """The clock shows quarters/4 at the next reading; each of the next `ticks` readings may be up to step/4 later (once: exactly one of them)."""
        self._clock = Clock(V.term(quarters), ticks, step, once)

    def now(self):
        """current second, without reading the clock"""
        return mkint(V.z(self.clock.cur) / 4)

    def now_quarters(self):
        return mkint(self.clock.cur)

    def key(self, i):
        return C.Key(i, True)

    def pem(self, i):
        return C.literal(C.KEYS[i]['pub'])

    def der(self, i):
        return C.literal(C.KEYS[i]['der'])

    def private_pem(self, i):
        return C.literal(C.KEYS[i]['priv'])

    def path(self, name):
        return '/scratch/' + name

    def add_file(self, name, content):
        path = '/scratch/' + name
        self.fs.files.append({'path': path, 'cells': SymBytes.lift(content)})
        return path

    def written(self):
        """contents of the files written by the code, in order of their first write"""
        out = []
        for e in self.fs.log:
            if not any(e is x for x in out):
                out.append(e)
        return [SymBytes.make(e['cells']) for e in out]

    def hash_password(self, password):
        """the stored form of a password (text), already combined with the pepper"""
        return C.bc_hash(SymBytes.lift(password.encode('utf-8')), object()).decode('ascii')

    def sha256(self, data):
        return C.Hash('sha256', 32, data).digest()

    def verify(self, i, data, signature):
        """True if signature is the RSASSA-PKCS1-v1_5 SHA-256 signature of data by key i"""
        try:
            C.Scheme(C.Key(i, False)).verify(C.Hash('sha256', 32, data), signature)
            return True
        except ValueError:
            return False

    def sign(self, i, data):
        return C.Scheme(C.Key(i, True)).sign(C.Hash('sha256', 32, data))

    def gmtime(self, secs):
        st = STime(V.term(secs), 'GMT')
        return dict(year=st.tm_year, mon=st.tm_mon, mday=st.tm_mday, hour=st.tm_hour, min=st.tm_min, sec=st.tm_sec,
                    wday=st.tm_wday, yday=st.tm_yday)

    def names(self):
        return DAYS, MONTHS


WORLD = None


def world():
    global WORLD
    if WORLD is None:
        WORLD = World()
    return WORLD


class LazyFS(object):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(world().fs, n)


def reset():
    global WORLD
    WORLD = None
    calls.CLOCK = Lazy()
    calls.VFS = LazyFS()


S.RESETS.append(reset)
calls.handle(math.floor, lambda x: x.__floor__() if is_sym(x) else math.floor(x))
calls.handle(math.ceil, lambda x: x.__ceil__() if is_sym(x) else math.ceil(x))
calls.handle(math.trunc, lambda x: calls.py_int(x))


class Lock(object):
    """A lock of the code under test.  A schedule in which an interleaved request would have to wait for it is not possible."""

    def __init__(self, again=False):
        self.again, self.held = again, 0

    def acquire(self, blocking=True, timeout=-1):
        if self.held and (not self.again or world().inside > 0):
            if not blocking:
                return False
            S.CTX.assume(False)
        self.held += 1
        return True

    def release(self):
        if not self.held:
            raise RuntimeError('release unlocked lock')
        self.held -= 1

    def locked(self): return self.held > 0
    def __enter__(self): return self.acquire()
    def __exit__(self, *a): self.release()


calls.handle(threading.Lock, lambda: Lock())
calls.handle(threading.RLock, lambda: Lock(True))
