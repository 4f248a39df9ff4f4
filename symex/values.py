"""Symbolic values: proxies that behave like bool, int, float, str, bytes, bytearray, set and enum members."""
import types
import z3
from fractions import Fraction
from .core import engine, Unsupported, Steer, simp, simpb


class Sym(object):
    __slots__ = ()


def is_sym(x):
    return isinstance(type(x), type) and issubclass(type(x), Sym)


def deep_sym(x, depth=3):
    """True if x is, or (within lists, tuples, dicts) holds, a symbolic value."""
    if issubclass(type(x), Sym):
        return True
    if depth > 0:
        t = type(x)
        if t in (list, tuple, set, frozenset):
            return any(deep_sym(e, depth - 1) for e in x)
        if issubclass(t, dict):
            return any(deep_sym(e, depth - 1) for e in x.values()) or any(deep_sym(e, depth - 1) for e in x.keys())
    return False


def zbool(x):
    """Python truth value or SymBool -> z3 Bool / bool, without forking."""
    if type(x) is SymBool:
        return x.e
    return bool(x)


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = simpb(e)
    if e is True or e is False:
        return e
    return SymBool(e)


def mkint(e):
    if isinstance(e, int):
        return e
    e = simp(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


_MEMO = {}


def _junct(kind, op, r):
    """Conjunction or disjunction of terms, remembered (the cache keeps the terms alive, so their ids stay valid)."""
    if len(r) == 1:
        return mkbool(r[0])
    k = (kind,) + tuple([x.get_id() for x in r])
    v = _MEMO.get(k)
    if v is None:
        if len(_MEMO) > 400000:
            _MEMO.clear()
        v = _MEMO[k] = (r, mkbool(op(*r)))
    return v[1]


def And(*a):
    r = []
    for x in a:
        x = zbool(x)
        if x is False:
            return False
        if x is not True:
            r.append(x)
    return _junct('and', z3.And, r) if r else True


def Or(*a):
    r = []
    for x in a:
        x = zbool(x)
        if x is True:
            return True
        if x is not False:
            r.append(x)
    return _junct('or', z3.Or, r) if r else False


def Not(a):
    a = zbool(a)
    return (not a) if isinstance(a, bool) else _junct1(a)


def _junct1(a):
    k = ('not', a.get_id())
    v = _MEMO.get(k)
    if v is None:
        v = _MEMO[k] = (a, mkbool(z3.Not(a)))
    return v[1]


def eq_const(e, n):
    """e == n for a term and a Python int"""
    k = ('=', e.get_id(), n)
    v = _MEMO.get(k)
    if v is None:
        v = _MEMO[k] = (e, mkbool(e == n))
    return v[1]


def Implies(a, b):
    return Or(Not(a), b)


class SymBool(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: bool)

    def __bool__(self):
        return engine().branch(self.e)

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return And(self, o)
        return NotImplemented
    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return Or(self, o)
        return NotImplemented
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) in (bool, SymBool):
            return mkbool(z3.Xor(self.e, z3.BoolVal(o) if type(o) is bool else o.e))
        return NotImplemented
    __rxor__ = __xor__

    def __eq__(self, o):
        if type(o) is SymBool:
            return mkbool(self.e == o.e)
        if type(o) is bool:
            return mkbool(self.e if o else z3.Not(self.e))
        if type(o) in (int, float, SymInt, SymFloat):
            return self._int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def _int(self):
        return mkint(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o): return self._int() + o
    def __radd__(self, o): return o + self._int()
    def __index__(self): return int(bool(self))
    def __int__(self): return int(bool(self))
    def __hash__(self): return hash(bool(self))
    def __str__(self): return str(bool(self))
    def __repr__(self): return 'SymBool(%s)' % self.e


_NUM = (int, float, bool)


def _num(o):
    """-> (z3 term, is_real) or None"""
    t = type(o)
    if t is SymInt:
        return o.e, False
    if issubclass(t, SymFloat):
        return o.e, True
    if t is bool or t is int:
        return z3.IntVal(int(o)), False
    if t is SymBool:
        return z3.If(o.e, z3.IntVal(1), z3.IntVal(0)), False
    if t is float:
        if o != o or o in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float')
        f = Fraction(o)
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator)), True
    if isinstance(o, int) and not is_sym(o):       # IntEnum
        return z3.IntVal(int(o)), False
    return None


def _cmp(a, b, op):
    x, y = _num(a), _num(b)
    if x is None or y is None:
        return NotImplemented
    l, r = x[0], y[0]
    if x[1] != y[1]:
        if not x[1]:
            l = z3.ToReal(l)
        else:
            r = z3.ToReal(r)
    return mkbool(op(l, r))


class SymInt(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: int)

    def __eq__(self, o):
        if type(o) is int:
            return eq_const(self.e, o)
        return _cmp(self, o, lambda a, b: a == b)

    def __ne__(self, o):
        if type(o) is int:
            return Not(eq_const(self.e, o))
        return _cmp(self, o, lambda a, b: a != b)

    def __lt__(self, o): return _cmp(self, o, lambda a, b: a < b)
    def __le__(self, o): return _cmp(self, o, lambda a, b: a <= b)
    def __gt__(self, o): return _cmp(self, o, lambda a, b: a > b)
    def __ge__(self, o): return _cmp(self, o, lambda a, b: a >= b)

    def _arith(self, o, f, swap=False):
        y = _num(o)
        if y is None:
            return NotImplemented
        a, b = self.e, y[0]
        if y[1]:
            a = z3.ToReal(a)
        if swap:
            a, b = b, a
        r = f(a, b)
        if y[1]:
            return exact_float(r)
        return mkint(r)

    def __add__(self, o): return self._arith(o, lambda a, b: a + b)
    def __radd__(self, o): return self._arith(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._arith(o, lambda a, b: a - b, True)

    def __mul__(self, o):
        if type(o) in (str, bytes, list, tuple) or isinstance(o, (str, bytes)):
            return o * self.__index__()
        return self._arith(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __neg__(self): return mkint(-self.e)
    def __pos__(self): return self
    def __abs__(self): return mkint(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.e / o)      # z3 integer division rounds to -inf for positive divisors
        return NotImplemented if _num(o) is None else self.__index__() // o

    def __mod__(self, o):
        if type(o) is int and o > 0:
            return mkint(self.e % o)
        return NotImplemented if _num(o) is None else self.__index__() % o

    def __divmod__(self, o):
        return self // o, self % o

    def __truediv__(self, o):
        if type(o) is int and o != 0:
            return exact_float(z3.ToReal(self.e) / o)
        return self.__index__() / o

    def __rtruediv__(self, o): return o / self.__index__()
    def __rfloordiv__(self, o): return o // self.__index__()
    def __rmod__(self, o): return o % self.__index__()
    def __pow__(self, o): return self.__index__() ** o
    def __rpow__(self, o): return o ** self.__index__()

    def __rshift__(self, o):
        if type(o) is int and o >= 0:
            return mkint(self.e / (1 << o))
        return self.__index__() >> o

    def __lshift__(self, o):
        if type(o) is int and o >= 0:
            return mkint(self.e * (1 << o))
        return self.__index__() << o

    def __rlshift__(self, o): return o << self.__index__()
    def __rrshift__(self, o): return o >> self.__index__()

    def __and__(self, o):
        if type(o) is int and o >= 0 and (o & (o + 1)) == 0:
            return mkint(self.e % (o + 1))
        return self.__index__() & o
    __rand__ = __and__

    def __or__(self, o): return self.__index__() | o
    __ror__ = __or__
    def __xor__(self, o): return self.__index__() ^ o
    __rxor__ = __xor__

    def __bool__(self):
        return engine().branch(self.e != 0)

    def __index__(self):
        return engine().realize_int(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __hash__(self):
        return hash(self.__index__())

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def __repr__(self):
        return 'SymInt(%s)' % self.e

    def to_bytes(self, length=1, byteorder='big', *, signed=False):
        n = length if type(length) is int else length.__index__()
        lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
        if not engine().branch(z3.And(self.e >= lo, self.e <= hi)):
            raise OverflowError('int too big to convert')
        cells = [ByteCell(self.e, i, n, lo) for i in range(n)]
        if byteorder == 'big':
            cells.reverse()
        return SymBytes(cells)

    def bit_length(self):
        return self.__index__().bit_length()

    def is_integer(self):
        return True

    def __round__(self, n=None): return self
    def __trunc__(self): return self
    def __floor__(self): return self
    def __ceil__(self): return self
    real = property(lambda self: self)
    numerator = property(lambda self: self)


def exact_float(r):
    """A float result that is exact in the reals; doubles would round outside the modelled domain."""
    r = simp(r)
    if z3.is_rational_value(r):
        return float(Fraction(r.numerator_as_long(), r.denominator_as_long()))
    return SymFloat(r)


class SymFloat(Sym):
    """A finite float: a real term the harness constrains to values a double represents exactly."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    __class__ = property(lambda self: float)

    def __eq__(self, o): return _cmp(self, o, lambda a, b: a == b)
    def __ne__(self, o): return _cmp(self, o, lambda a, b: a != b)
    def __lt__(self, o): return _cmp(self, o, lambda a, b: a < b)
    def __le__(self, o): return _cmp(self, o, lambda a, b: a <= b)
    def __gt__(self, o): return _cmp(self, o, lambda a, b: a > b)
    def __ge__(self, o): return _cmp(self, o, lambda a, b: a >= b)
    def __neg__(self): return exact_float(-self.e)
    def __pos__(self): return self
    def __abs__(self): return exact_float(z3.If(self.e >= 0, self.e, -self.e))

    def _arith(self, o, f, swap=False):
        y = _num(o)
        if y is None:
            return NotImplemented
        if f is None or type(self) is not SymFloat or type(o) in (float, DecFloat):
            raise Unsupported('float arithmetic')
        # sums of multiples of 1/den are exact in double precision within the bounds the harnesses use
        b = y[0] if y[1] else z3.ToReal(y[0])
        return exact_float(f(b, self.e) if swap else f(self.e, b))

    def __add__(self, o): return self._arith(o, lambda a, b: a + b)
    def __radd__(self, o): return self._arith(o, lambda a, b: a + b, True)
    def __sub__(self, o): return self._arith(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._arith(o, lambda a, b: a - b, True)
    def __mul__(self, o): return self._arith(o, None)
    __rmul__ = __truediv__ = __rtruediv__ = __mul__

    def __bool__(self):
        return engine().branch(self.e != 0)

    def to_int(self):
        return mkint(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    def __int__(self):
        r = self.to_int()
        return r if type(r) is int else r.__index__()

    def is_integer(self):
        return mkbool(z3.ToReal(z3.ToInt(self.e)) == self.e)

    def __float__(self): raise Unsupported('float of symbolic float in native code')
    def __hash__(self): raise Unsupported('hash of symbolic float')
    def __str__(self): raise Unsupported('text of symbolic float')
    def __format__(self, spec): raise Unsupported('text of symbolic float')
    def __repr__(self): return 'SymFloat(%s)' % self.e


def to_float(x):
    """float(x) for a symbolic integer: exact up to 2**53; one representative value beyond, where doubles round."""
    if issubclass(type(x), SymFloat):
        return x
    if type(x) is SymBool:
        return float(bool(x))
    e = x.e
    if engine().branch(z3.And(e >= -(1 << 53), e <= (1 << 53))):
        return SymFloat(z3.ToReal(e))
    for v in ((1 << 53) + 1, -(1 << 53) - 1):
        if engine().branch(e == v):
            return float(v)
    raise Unsupported('float() of an integer beyond 2**53')


# ---------------------------------------------------------------------------------------------------------------
# characters


class Domain(object):
    """A finite set of code points with Python's character predicates and case maps tabulated over it."""

    def __init__(self, codes):
        self.codes = sorted(set(codes))
        self._pred = {}
        self._map = {}

    @staticmethod
    def ranges(codes):
        out = []
        for c in codes:
            if out and out[-1][1] == c - 1:
                out[-1][1] = c
            else:
                out.append([c, c])
        return out

    def member(self, e):
        return self._in(e, self.codes)

    @staticmethod
    def _in(e, codes):
        rs = Domain.ranges(codes)
        if not rs:
            return z3.BoolVal(False)
        return z3.Or(*[(e == lo) if lo == hi else z3.And(e >= lo, e <= hi) for lo, hi in rs])

    def pred(self, name):
        if name not in self._pred:
            self._pred[name] = [c for c in self.codes if getattr(chr(c), name)()]
        return self._pred[name]

    def casemap(self, name):
        """-> (delta -> codes, special codes whose image is longer than one character)"""
        if name not in self._map:
            deltas, special = {}, []
            for c in self.codes:
                r = getattr(chr(c), name)()
                if len(r) != 1:
                    special.append(c)
                else:
                    d = ord(r) - c
                    if d:
                        deltas.setdefault(d, []).append(c)
            self._map[name] = (deltas, special)
        return self._map[name]


LATIN = Domain(list(range(0, 256)) + [0x131, 0x17f, 0x212a, 0x660, 0x3b1, 0x391, 0x4e2d, 0x2003, 0x1f600, 0xff11, 0x2160,
                                     0x2212, 0x2014, 0x201c, 0x2019, 0x2264, 0x2260, 0xff0c, 0xff08, 0x200b, 0xfeff])
ASCII = Domain(range(0, 128))

B64_UNITS = frozenset(b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=-_')


class Char(object):
    """The domain of a symbolic character is remembered per term id so that derived terms keep it."""
    table = {}


def char_domain(e):
    d = Char.table.get(e.get_id())
    return d[1] if d else LATIN


def note_domain(e, d):
    Char.table[e.get_id()] = (e, d)      # keeps e alive so that its id is not reused
    if len(Char.table) > 200000:
        Char.table.clear()


# ---------------------------------------------------------------------------------------------------------------
# cells of symbolic sequences


class ByteCell(object):
    """Byte i (little endian) of the two's complement representation of e, packed in n bytes, lo <= e checked."""
    __slots__ = ('x', 'i', 'n', 'lo')

    def __init__(self, x, i, n, lo):
        self.x = x
        self.i = i
        self.n = n
        self.lo = lo

    def expr(self):
        return (self.x / (1 << (8 * self.i))) % 256

    def same(self, o):
        return type(o) is ByteCell and self.i == o.i and self.x.eq(o.x)


class FloatCell(object):
    """Byte i (little endian) of the 8 byte representation of a SymFloat."""
    __slots__ = ('x', 'i')

    def __init__(self, x, i):
        self.x = x
        self.i = i

    def same(self, o):
        return type(o) is FloatCell and self.i == o.i and self.x.e.eq(o.x.e)


class Base(object):
    """Content of a blob: an opaque text or byte string of symbolic length.

    kind 'text' / 'bytes': free content identified by the integer cid (0 = empty, negative = a literal)
    kind 'dec', 'hex', 'fdec': the numeral of payload; kind 'b64': base64 of payload; 'hash': digest of payload;
    'sig': signature (key, digest); 'key': exported key; 'zeros': padding; 'opaque': text nobody should look into
    """
    __slots__ = ('kind', 'name', 'cid', 'n', 'nb', 'payload', 'plain')

    def __init__(self, kind, name, n, nb=None, cid=None, payload=None, plain=True):
        self.kind = kind
        self.name = name
        self.n = n
        self.nb = nb if nb is not None else n
        self.cid = cid
        self.payload = payload
        self.plain = plain


class Blob(object):
    """Elements lo..hi of a base; unit is 't' (characters) or 'b' (bytes, UTF-8 for text bases)."""
    __slots__ = ('base', 'lo', 'hi', 'unit')

    def __init__(self, base, lo, hi, unit):
        self.base = base
        self.lo = lo
        self.hi = hi
        self.unit = unit

    def length(self):
        return zsub(self.hi, self.lo)

    def total(self):
        return self.base.n if self.unit == 't' else self.base.nb

    def full(self):
        return same_term(self.lo, 0) and same_term(self.hi, self.total())


def z(x):
    return z3.IntVal(x) if isinstance(x, int) else x


_ARITH = {}


def _arith(op, a, b):
    """a + b or a - b, simplified; remembered per pair of terms (kept alive by the table)"""
    k = (op, a if isinstance(a, int) else (a.get_id(),), b if isinstance(b, int) else (b.get_id(),))
    r = _ARITH.get(k)
    if r is None:
        if len(_ARITH) > 300000:
            _ARITH.clear()
        r = _ARITH[k] = (a, b, norm(z(a) + z(b) if op else z(a) - z(b)))
    return r[2]


def zsub(a, b):
    if isinstance(b, int):
        if b == 0:
            return a
        if isinstance(a, int):
            return a - b
    return _arith(False, a, b)


def zadd(a, b):
    if isinstance(b, int):
        if b == 0:
            return a
        if isinstance(a, int):
            return a + b
    elif isinstance(a, int) and a == 0:
        return b
    return _arith(True, a, b)


def norm(e):
    e = simp(e)
    return e.as_long() if z3.is_int_value(e) else e


def same_term(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    d = zsub(a, b)
    return isinstance(d, int) and d == 0


def term(x):
    """int / SymInt -> int or z3 term"""
    if type(x) is SymInt:
        return x.e
    if type(x) is SymBool:
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if type(x) is bool:
        return int(x)
    if isinstance(x, int):
        return int(x)
    if hasattr(x, '__index__'):
        return x.__index__()
    raise TypeError('slice indices must be integers or None or have an __index__ method')


def decide_le(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a <= b
    return engine().branch(z(a) <= z(b))


def decide_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return engine().branch(z(a) == z(b))


def cell_len(c):
    return c.length() if type(c) is Blob else 1


def unit_expr(c):
    """z3 term of a one-element cell"""
    if type(c) is int:
        return z3.IntVal(c)
    if type(c) is ByteCell:
        return c.expr()
    if type(c) is FloatCell:
        raise Unsupported('byte of a symbolic float')
    return c


def known_content(cells):
    """Replaces exported keys, whose content is known, by their bytes"""
    if not any(type(c) is Blob and c.base.kind == 'key' for c in cells):
        return cells
    out = []
    for c in cells:
        if type(c) is Blob and c.base.kind == 'key' and c.full() and type(c.base.payload) is bytes:
            out += list(c.base.payload)
        else:
            out.append(c)
    return out


def expand(cells):
    """Replaces lazily formatted parts by their characters (forks)."""
    if not [c for c in cells if type(c) is Blob and c.base.kind == 'lazy']:
        return cells
    out = []
    for c in cells:
        if type(c) is Blob and c.base.kind == 'lazy':
            if not c.full():
                raise Unsupported('part of a lazily formatted text')
            r = c.base.payload()
            out += [ord(x) for x in r] if type(r) is str else list(r.cells)
        else:
            out.append(c)
    return out


LITERALS = {}


def literal_cid(b):
    """The content identifier of a literal (bytes); 0 for the empty one."""
    if not b:
        return 0
    if b not in LITERALS:
        LITERALS[b] = -(len(LITERALS) + 1)
    return LITERALS[b]


DECLEN = z3.Function('declen', z3.IntSort(), z3.IntSort())
HEXLEN = z3.Function('hexlen', z3.IntSort(), z3.IntSort())


_LENDEF = {}


def dec_text(e):
    """str() of a symbolic integer"""
    if isinstance(e, int):
        return str(e)
    e = simp(e)
    if z3.is_int_value(e):
        return str(e.as_long())
    n, d = _LENDEF.get(e.get_id(), (None, None))[:2]
    if n is not None:
        engine().assume(d)
        return SymStr([Blob(Base('dec', 'dec', n, payload=e), 0, n, 't')])
    n = DECLEN(e)
    a = z3.If(e >= 0, e, -e)
    c = z3.IntVal(60)
    for d in range(50, 0, -1):
        c = z3.If(a < 10 ** d, z3.IntVal(d), c)
    d = z3.If(a < 10 ** 50, n == c + z3.If(e < 0, 1, 0), z3.And(n >= 51, n <= 400))
    if len(_LENDEF) > 20000:
        _LENDEF.clear()
    _LENDEF[e.get_id()] = (n, d, e)
    engine().assume(d)
    return SymStr([Blob(Base('dec', 'dec', n, payload=e), 0, n, 't')])


def hex_text(e, upper, width):
    e = simp(e) if not isinstance(e, int) else e
    if isinstance(e, int) or z3.is_int_value(e):
        v = e if isinstance(e, int) else e.as_long()
        return ('%0*X' if upper else '%0*x') % (width, v)
    if engine().branch(z3.Or(e < 0, e >= 16 ** 42)):
        return ('%0*X' if upper else '%0*x') % (width, engine().realize_int(e))
    n = HEXLEN(e)
    c = z3.IntVal(60)
    for d in range(42, 0, -1):
        c = z3.If(e < 16 ** d, z3.IntVal(max(d, width)), c)
    engine().assume(n == c)
    return SymStr([Blob(Base('hex', 'hex', n, payload=(e, upper, width)), 0, n, 't')])


class Offsets(object):
    def __init__(self, bases, offs):
        self.bases = bases
        self.offs = offs

    def __getitem__(self, i):
        b, k = self.offs[i]
        return zadd(self.bases[b], k)


class Seq(Sym):
    """Common part of SymStr, SymBytes and SymByteArray: a rope of one-element cells and blobs."""
    __slots__ = ('cells',)
    UNIT = 't'

    def __init__(self, cells):
        self.cells = list(cells)

    # -- helpers --------------------------------------------------------------------------------------------
    @classmethod
    def make(cls, cells):
        """A native value if all cells are concrete, else a symbolic one."""
        cells = list(cells)
        if all(type(c) is int for c in cells):
            return cls.native(cells)
        return cls(cells)

    @staticmethod
    def native(cells):
        raise NotImplementedError

    @classmethod
    def lift(cls, x):
        """cells of a native or symbolic value of this kind, or None"""
        raise NotImplementedError

    def zlen(self):
        blobs = [c for c in self.cells if type(c) is Blob]
        n = 0
        for c in blobs:
            n = zadd(n, c.length())
        return zadd(n, len(self.cells) - len(blobs))

    def sym_len(self):
        return mkint(self.zlen())

    def simple(self):
        return not any(type(c) is Blob for c in self.cells)

    def drop_empty(self):
        """Resolves blobs whose emptiness matters: removes those that are empty on this path (forks)."""
        out = []
        self.cells = expand(self.cells)
        for c in self.cells:
            if type(c) is Blob:
                if decide_eq(c.length(), 0):
                    continue
            out.append(c)
        return out

    def __len__(self):
        n = self.zlen()
        return n if isinstance(n, int) else engine().realize_int(n)

    def __bool__(self):
        n = self.zlen()
        if isinstance(n, int):
            return n > 0
        return engine().branch(n > 0)

    def split_at(self, cells, p):
        """Splits a cell list at offset p (term); returns (left, right). p is clamped to the length."""
        if isinstance(p, int) and p <= 0:
            return [], list(cells)
        cells = expand(cells)
        n = len(cells)
        at = [i for i, c in enumerate(cells) if type(c) is Blob]
        if isinstance(p, int) and p <= (at[0] if at else n):
            return list(cells[:p]), list(cells[p:])
        # fast path: syntactic match of the offset; the j-th run of unit cells follows the j-th blob
        bases = [0]                         # offset of boundary k in run j = bases[j] + k - j
        for i in at:
            bases.append(zadd(bases[-1], cells[i].length()))
        ends = at + [n]
        for j in range(len(at), -1, -1):
            w = zsub(p, bases[j])
            if isinstance(w, int) and (at[j - 1] + 1 if j else 0) <= w + j <= ends[j]:
                # skip over cells of length zero is harmless: they carry no elements
                return list(cells[:w + j]), list(cells[w + j:])
        offs = [(0, 0)]
        j = 0
        for i, c in enumerate(cells):
            if type(c) is Blob:
                j += 1
            offs.append((j, i + 1 - j))
        offs = Offsets(bases, offs)
        if decide_le(p, 0):
            return [], list(cells)
        if decide_le(offs[n], p):
            return list(cells), []
        # 0 < p < total: binary search over the boundaries
        lo, hi = 0, n
        while hi - lo > 1:
            mid = (lo + hi) // 2
            if decide_le(offs[mid], p):
                lo = mid
            else:
                hi = mid
        c = cells[lo]
        if type(c) is not Blob or decide_eq(offs[lo], p):
            return list(cells[:lo]), list(cells[lo:])
        d = zadd(c.lo, zsub(p, offs[lo]))
        a = Blob(c.base, c.lo, d, c.unit)
        b = Blob(c.base, d, c.hi, c.unit)
        return list(cells[:lo]) + [a], [b] + list(cells[lo + 1:])

    def _bounds(self, s):
        if s.step is not None and s.step != 1:
            return None
        total = self.zlen()

        def fix(v, default):
            if v is None:
                return default
            t = term(v)
            if isinstance(t, int):
                if t < 0:
                    t = zadd(total, t)
                    if isinstance(t, int):
                        return max(t, 0)
                    return t if not decide_le(t, -1) else 0
                return t
            if not decide_le(0, t):
                t = zadd(total, t)
                if not decide_le(0, t):
                    return 0
            return t
        return fix(s.start, 0), fix(s.stop, total)

    def slice_cells(self, s):
        b = self._bounds(s)
        if b is None:
            if all(type(c) is not Blob for c in self.cells):
                return self.cells[s]
            raise Unsupported('slice with a step')
        a, e = b
        cells = self.cells
        if isinstance(a, int) and isinstance(e, int) and e <= a:
            return []
        if not same_term(e, self.zlen()):
            cells, _ = self.split_at(cells, e)
        if not same_term(a, 0):
            _, cells = self.split_at(cells, a)
        return list(cells)

    def item_cell(self, i):
        t = term(i)
        if isinstance(t, int) and self.simple():
            if t < -len(self.cells) or t >= len(self.cells):
                raise IndexError('index out of range')
            return self.cells[t]
        total = self.zlen()
        if isinstance(t, int) and t < 0:
            t = zadd(total, t)
        if not (decide_le(0, t) and decide_le(zadd(t, 1), total)):
            raise IndexError('index out of range')
        if not isinstance(t, int) and self.simple():
            t = engine().realize_int(t)
            return self.cells[t]
        _, r = self.split_at(self.cells, t)
        r = [c for c in r if not (type(c) is Blob and decide_eq(c.length(), 0))]
        if type(r[0]) is Blob:
            raise Unsupported('element of an opaque string')
        return r[0]

    # -- equality -------------------------------------------------------------------------------------------
    def _eq_cells(self, A, B):
        """z3 term / bool for the equality of two cell lists (forks on the lengths of blobs)."""
        A, B = expand(A), expand(B)
        if not any(type(c) is Blob for c in A) and not any(type(c) is Blob for c in B):
            if len(A) != len(B):
                return False
            conj = []
            for a, b in zip(A, B):
                if type(a) is int and type(b) is int:
                    if a != b:
                        return False
                elif type(a) in (ByteCell, FloatCell) and a.same(b):
                    pass
                else:
                    conj.append((a, b))
            conj = self._merge_units(conj)
            if not conj:
                return True
            return mkbool(z3.And(*conj))
        for X, Y in ((A, B), (B, A)):
            if len(X) == 1 and type(X[0]) is Blob and X[0].base.kind in ('b64', 'b64u') and any(type(c) is int and c not in B64_UNITS for c in Y):
                return False
        la, lb = self._total(A), self._total(B)
        if not same_term(la, lb):
            if not decide_eq(la, lb):
                return False
        A, B = list(A), list(B)
        conj, pairs = [], []

        def flush():
            conj.extend(self._merge_units(pairs))
            del pairs[:]

        while A or B:
            a, b = (A[0] if A else None), (B[0] if B else None)
            if a is not None and b is not None:
                if type(a) is not Blob and type(b) is not Blob:
                    if type(a) is int and type(b) is int:
                        if a != b:
                            return False
                    elif type(a) in (ByteCell, FloatCell) and a.same(b):
                        pass
                    else:
                        pairs.append((a, b))
                    A.pop(0)
                    B.pop(0)
                    continue
                if type(a) is Blob and type(b) is Blob and a.base is b.base and same_term(a.lo, b.lo) and same_term(a.hi, b.hi):
                    A.pop(0)
                    B.pop(0)
                    continue
            # what was equal so far may determine the lengths of what follows
            flush()
            if conj:
                if not engine().branch(z3.And(*conj)):
                    return False
                conj = []
            if type(a) is Blob and type(b) is Blob and a.full() and b.full() and \
                    (same_term(a.length(), b.length()) or engine().entails(z(a.length()) == z(b.length()))):
                c = blob_eq(a, b)
                if c is False:
                    # not possible unless both are empty
                    if not decide_eq(a.length(), 0):
                        return False
                elif c is not True:
                    conj.append(c)
                A.pop(0)
                B.pop(0)
                continue
            if type(a) is Blob and decide_eq(a.length(), 0):
                A.pop(0)
                continue
            if type(b) is Blob and decide_eq(b.length(), 0):
                B.pop(0)
                continue
            if a is None or b is None:
                return False          # lengths are equal: cannot happen unless the rest is empty
            if type(a) is Blob and type(b) is Blob:
                x, y = a.length(), b.length()
                if not same_term(x, y) and not decide_eq(x, y):
                    if decide_le(x, y):
                        l, r = self.split_at([b], x)
                        B[0:1] = l + r
                    else:
                        l, r = self.split_at([a], y)
                        A[0:1] = l + r
                    continue
                c = blob_eq(a, b)
                if c is False:
                    return False
                if c is not True:
                    conj.append(c)
                A.pop(0)
                B.pop(0)
                continue
            # a blob against one-element cells
            swap = type(b) is Blob
            bl, L = (b, A) if swap else (a, B)
            run = []
            n = bl.length()
            k = None
            if isinstance(n, int):
                k = n
            else:
                k = engine().realize_int(n)
            for c in L[:k]:
                if type(c) is Blob:
                    break
                run.append(c)
            if len(run) < k:
                raise Unsupported('comparison of an opaque string with a mixed one')
            c = blob_eq_units(bl, run)
            if c is False:
                return False
            if c is not True:
                conj.append(c)
            del A[0:(k if swap else 1)]
            del B[0:(1 if swap else k)]
        flush()
        if not conj:
            return True
        return mkbool(z3.And(*conj))

    @staticmethod
    def _merge_units(pairs):
        """Conditions for pairs of one-element cells; runs of bytes of two integers become one equation."""
        out = []
        i = 0
        while i < len(pairs):
            a, b = pairs[i]
            if type(a) is ByteCell and type(b) is ByteCell and a.n == b.n and a.lo == b.lo and a.i == b.i:
                run = pairs[i:i + a.n]
                if len(run) == a.n and all(
                        type(p) is ByteCell and type(q) is ByteCell and p.x.eq(a.x) and q.x.eq(b.x) and p.i == q.i
                        for p, q in run) and len(set(p.i for p, q in run)) == a.n:
                    out.append(a.x == b.x)
                    i += a.n
                    continue
            out.append(unit_expr(a) == unit_expr(b))
            i += 1
        return out

    @staticmethod
    def _total(cells):
        n = 0
        for c in cells:
            n = zadd(n, cell_len(c))
        return n

    def __eq__(self, o):
        c = self.lift(o)
        if c is None:
            return False if (is_sym(o) or not hasattr(o, '__eq__')) else NotImplemented
        return self._eq_cells(self.cells, c)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return Not(r)

    def _order(self, o, lt_result, eq_result):
        c = self.lift(o)
        if c is None:
            return NotImplemented
        A, B = expand(list(self.cells)), expand(list(c))
        if any(type(x) is Blob for x in A + B):
            raise Unsupported('ordering of opaque strings')
        for a, b in zip(A, B):
            a, b = unit_expr(a), unit_expr(b)
            if engine().branch(a == b):
                continue
            return mkbool(a < b) if lt_result else mkbool(a > b)
        if len(A) == len(B):
            return eq_result
        return (len(A) < len(B)) == lt_result

    def __lt__(self, o): return self._order(o, True, False)
    def __le__(self, o): return self._order(o, True, True)
    def __gt__(self, o): return self._order(o, False, False)
    def __ge__(self, o): return self._order(o, False, True)

    def realize(self):
        """Exhaustive case split to a native value."""
        self.cells = expand(self.cells)
        if not self.simple():
            cells = []
            for c in self.cells:
                if type(c) is Blob:
                    if c.base.kind == 'dec' and c.full():
                        cells += self.lift(self.encode_native(str(engine().realize_int(c.base.payload))))
                        continue
                    if decide_eq(c.length(), 0):
                        continue
                    raise Unsupported('native operation on an opaque string')
                cells.append(c)
        else:
            cells = self.cells
        return self.native([c if type(c) is int else engine().realize_int(unit_expr(c)) for c in cells])

    @staticmethod
    def encode_native(s):
        return s

    def __hash__(self):
        return hash(self.realize())

    def __iter__(self):
        for c in self.drop_empty():
            if type(c) is Blob:
                raise Unsupported('iteration over an opaque string')
            yield self._elem(c)

    def __add__(self, o):
        c = self.lift(o)
        if c is None:
            return NotImplemented
        return type(self).make(self.cells + c)

    def __radd__(self, o):
        c = self.lift(o)
        if c is None:
            return NotImplemented
        return type(self).make(c + self.cells)

    def __mul__(self, n):
        return type(self).make(self.cells * (n if type(n) is int else n.__index__()))
    __rmul__ = __mul__

    def __getitem__(self, i):
        if isinstance(i, slice):
            return type(self).make(self.slice_cells(i))
        return self._elem(self.item_cell(i))

    def _needle(self, o):
        c = self.lift(o)
        if c is None:
            raise TypeError('must be a string of the same kind')
        return c

    def _match_at(self, cells, needle, i):
        """Condition that needle (one-element cells) stands at index i of cells (all one-element)."""
        return And(*[mkbool(unit_expr(a) == unit_expr(b)) for a, b in zip(cells[i:i + len(needle)], needle)])

    def _search_cells(self, needle):
        """Cells with blobs that provably cannot overlap a match of needle kept; raises Unsupported otherwise."""
        cells = known_content(self.drop_empty())
        for c in cells:
            if type(c) is Blob:
                if not blob_excludes(c, needle):
                    raise Unsupported('search in an opaque string')
        return cells

    def find_all(self, needle):
        """Yields the indices into the cell list where needle matches (forks), left to right, non-overlapping."""
        cells = self._search_cells(needle)
        n = len(needle)
        i = 0
        hits = []
        while i + n <= len(cells):
            seg = cells[i:i + n]
            if any(type(c) is Blob for c in seg):
                i += 1
                continue
            if bool(self._match_at(cells, needle, i)):
                hits.append(i)
                i += max(n, 1)
            else:
                i += 1
        return cells, hits

    def __contains__(self, o):
        if issubclass(type(o), Seq) and not o.simple():
            raise Unsupported('search for an opaque string')
        needle = self._needle(o)
        if not needle:
            return True
        cells = self._search_cells(needle)
        n = len(needle)
        alts = []
        for i in range(0, len(cells) - n + 1):
            if any(type(c) is Blob for c in cells[i:i + n]):
                continue
            alts.append(self._match_at(cells, needle, i))
        return bool(Or(*alts))

    def _offset(self, cells, k):
        return mkint(self._total(cells[:k]))

    def find(self, sub, start=0, end=None):
        if start != 0 or end is not None:
            base = self[start:end] if end is not None else self[start:]
            r = base.find(sub) if is_sym(base) else (base.find(sub) if not is_sym(sub) else type(self)(self.lift(base)).find(sub))
            if type(r) is int and r < 0:
                return r
            return r + start
        needle = self._needle(sub)
        cells = self._search_cells(needle)
        for i in range(0, len(cells) - len(needle) + 1):
            if any(type(c) is Blob for c in cells[i:i + len(needle)]):
                continue
            if bool(self._match_at(cells, needle, i)):
                return self._offset(cells, i)
        return -1

    def index(self, sub, *a):
        r = self.find(sub, *a)
        if type(r) is int and r < 0:
            raise ValueError('substring not found')
        return r

    def rfind(self, sub):
        cells, hits = self.find_all(self._needle(sub))
        return self._offset(cells, hits[-1]) if hits else -1

    def count(self, sub):
        return len(self.find_all(self._needle(sub))[1])

    def startswith(self, p, start=0):
        if isinstance(p, tuple) and not is_sym(p):
            return Or(*[self.startswith(x) for x in p])
        n = self._needle(p)
        cells = self[start:].cells if (start != 0 and is_sym(self[start:])) else (self.cells if start == 0 else self.lift(self[start:]))
        head, _ = self.split_at(cells, self._total(n))
        return self._eq_cells(head, n)

    def endswith(self, p):
        if isinstance(p, tuple) and not is_sym(p):
            return Or(*[self.endswith(x) for x in p])
        n = self._needle(p)
        k = self._total(n)
        total = self.zlen()
        if not decide_le(k, total):
            return False
        _, tail = self.split_at(self.cells, zsub(total, k))
        return self._eq_cells(tail, n)

    def removeprefix(self, p):
        return self[len(p):] if bool(self.startswith(p)) else self

    def removesuffix(self, p):
        return self[:-len(p)] if len(p) and bool(self.endswith(p)) else self

    def split(self, sep=None, maxsplit=-1):
        cls = type(self)
        if sep is None:
            cells = self.drop_empty()
            parts, cur = [], []
            for c in cells:
                if type(c) is not Blob and bool(self._is_space(c)):
                    if cur:
                        parts.append(cur)
                        cur = []
                else:
                    if type(c) is Blob and not c.base.plain and c.base.kind not in ('b64', 'b64u', 'dec', 'hex', 'hashhex'):
                        raise Unsupported('split of an opaque string')
                    cur.append(c)
            if cur:
                parts.append(cur)
            if maxsplit >= 0 and len(parts) > maxsplit + 1:
                raise Unsupported('split with maxsplit on whitespace')
            return [cls.make(p) for p in parts]
        needle = self._needle(sep)
        if not needle:
            raise ValueError('empty separator')
        cells, hits = self.find_all(needle)
        if maxsplit >= 0:
            hits = hits[:maxsplit]
        parts, last = [], 0
        for h in hits:
            parts.append(cells[last:h])
            last = h + len(needle)
        parts.append(cells[last:])
        return [cls.make(p) for p in parts]

    def splitlines(self, keepends=False):
        cls = type(self)
        breaks = (10, 13) if issubclass(cls, bytes) or cls is SymBytes else (10, 11, 12, 13, 28, 29, 30, 0x85, 0x2028, 0x2029)
        cells = self.drop_empty()
        parts, cur, i = [], [], 0
        while i < len(cells):
            c = cells[i]
            i += 1
            if type(c) is Blob:
                if not c.base.plain and c.base.kind not in ('b64', 'b64u', 'dec', 'hex', 'hashhex'):
                    raise Unsupported('splitlines of an opaque string')
                cur.append(c)
                continue
            is_ = lambda x, k: x == k if type(x) is int else bool(mkbool(unit_expr(x) == k))
            if not (c in breaks if type(c) is int else bool(mkbool(z3.Or(*[unit_expr(c) == k for k in breaks])))):
                cur.append(c)
                continue
            end = [c]
            if is_(c, 13) and i < len(cells) and type(cells[i]) is not Blob and is_(cells[i], 10):
                end.append(cells[i])
                i += 1
            parts.append(cur + end if keepends else cur)
            cur = []
        if cur:
            parts.append(cur)
        return [cls.make(p) for p in parts]

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        parts = self.split(sep)
        if len(parts) <= maxsplit + 1:
            return parts
        k = len(parts) - maxsplit
        head = parts[0]
        for p in parts[1:k]:
            head = head + sep + p
        return [head] + parts[k:]

    def partition(self, sep):
        parts = self.split(sep, 1)
        e = type(self).native([])
        if len(parts) == 1:
            return (parts[0], e, e)
        return (parts[0], sep, parts[1])

    def rpartition(self, sep):
        parts = self.rsplit(sep, 1)
        e = type(self).native([])
        if len(parts) == 1:
            return (e, e, parts[0])
        return (parts[0], sep, parts[1])

    def replace(self, old, new, count=-1):
        parts = self.split(old, count)
        r = parts[0]
        for p in parts[1:]:
            r = r + new + p
        return r

    def _is_space(self, c):
        raise NotImplementedError

    def _strip_test(self, chars):
        if chars is None:
            return self._is_space
        cs = self.lift(chars)
        if any(type(c) is not int for c in cs):
            raise Unsupported('strip of symbolic characters')
        return lambda c: Or(*[mkbool(unit_expr(c) == k) for k in cs])

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        cells = self.drop_empty()
        i = 0
        while i < len(cells):
            if type(cells[i]) is Blob:
                if chars is None and cells[i].base.plain:
                    break
                raise Unsupported('strip of an opaque string')
            if not bool(t(cells[i])):
                break
            i += 1
        return type(self).make(cells[i:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        cells = self.drop_empty()
        i = len(cells)
        while i > 0:
            if type(cells[i - 1]) is Blob:
                if chars is None and cells[i - 1].base.plain:
                    break
                raise Unsupported('strip of an opaque string')
            if not bool(t(cells[i - 1])):
                break
            i -= 1
        return type(self).make(cells[:i])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        if is_sym(r):
            return r.rstrip(chars)
        return r.rstrip(chars)

    def join(self, parts):
        parts = list(parts)
        cells = []
        for i, p in enumerate(parts):
            c = self.lift(p)
            if c is None:
                raise TypeError('sequence item %d: expected string of the same kind' % i)
            if i:
                cells += self.cells
            cells += c
        return type(self).make(cells)

    def __getattr__(self, name):
        # any other method: exhaustive case split, then the native method
        if name.startswith('__'):
            raise AttributeError(name)
        native = self.realize()
        return getattr(native, name)


def blob_excludes(b, needle):
    """True if no element of the blob can be an element of needle, so that no match can overlap it"""
    if any(type(c) is not int for c in needle):
        return False
    k = b.base.kind
    if k in ('text', 'opaque'):
        return b.base.plain and all(c < 128 and not chr(c).isalnum() for c in needle)
    if k == 'bc':
        return not any(48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c in (36, 46, 47) for c in needle)
    if k == 'dec':
        return not any(48 <= c <= 57 or c == 45 for c in needle)
    if k == 'hex':
        return not any(48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102 or c == 45 for c in needle)
    if k == 'b64':
        return not any(48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c in (43, 47, 61) for c in needle)
    if k == 'b64u':
        return not any(48 <= c <= 57 or 65 <= c <= 90 or 97 <= c <= 122 or c in (45, 95, 61) for c in needle)
    return False


def content_id(b):
    """cid of a full blob of free content"""
    return b.base.cid


def blob_eq(a, b):
    """Equality of two non-empty blobs of equal length: bool or z3 term (forks where needed)."""
    x, y = a.base, b.base
    if x is y or (x.kind == y.kind and x.kind in ('text', 'bytes', 'key') and x.cid is y.cid):
        if same_term(a.lo, b.lo) or decide_eq(a.lo, b.lo):
            return True
        raise Unsupported('comparison of overlapping parts of one opaque string')
    if not (a.full() and b.full()):
        if x.kind == 'zeros' and y.kind == 'zeros':
            return True
        raise Unsupported('comparison of parts of opaque strings')
    free = ('text', 'bytes', 'key')
    if x.kind in free and y.kind in free:
        engine().assume(z3.Implies(z(x.cid) == z(y.cid), z3.And(z(x.nb) == z(y.nb), z(x.n) == z(y.n)) if x.kind == y.kind == 'text' else z(x.nb) == z(y.nb)))
        return z(x.cid) == z(y.cid)
    if x.kind == y.kind:
        if x.kind == 'dec':
            return z(x.payload) == z(y.payload)
        if x.kind == 'hex' and x.payload[1:] == y.payload[1:]:
            return z(x.payload[0]) == z(y.payload[0])
        if x.kind in ('b64', 'b64u'):
            r = SymBytes(x.payload)._eq_cells(x.payload, y.payload)
            return zbool(r)
        if x.kind in ('hash', 'hashhex', 'sig', 'bc'):
            # payload: (algorithm, key, ...) and the cells that were hashed, signed, ...
            if x.payload[0] != y.payload[0]:
                return False
            r = SymBytes(x.payload[1])._eq_cells(x.payload[1], y.payload[1])
            return zbool(r)
        if x.kind == 'zeros':
            return True
    ideal = ('sig', 'hash', 'hashhex', 'bc')
    if x.kind in ideal or y.kind in ideal:
        return False            # idealised: nothing else equals a digest, signature or password hash
    raise Unsupported('comparison of %s with %s' % (x.kind, y.kind))


def blob_eq_units(bl, run):
    """Equality of a non-empty blob with one-element cells of the same total length."""
    k = bl.base.kind
    if any(type(c) is not int for c in run):
        if k == 'zeros':
            return z3.And(*[unit_expr(c) == 0 for c in run])
        raise Unsupported('comparison of an opaque string with symbolic characters')
    if k == 'zeros':
        return all(c == 0 for c in run)
    if not bl.full():
        letters = {'dec': frozenset(b'0123456789-'), 'hex': frozenset(b'0123456789abcdefABCDEFx-'), 'hashhex': frozenset(b'0123456789abcdefABCDEF'),
                   'b64': B64_UNITS, 'b64u': B64_UNITS, 'bc': B64_UNITS | frozenset(b'$.')}.get(k)
        if letters is not None and any(c not in letters for c in run):
            return False
        if k == 'text' and bl.base.plain and any(c < 128 and not chr(c).isalnum() for c in run):
            return False
        raise Unsupported('comparison of a part of an opaque string with a literal')
    if k in ('text', 'bytes', 'key'):
        lit = ''.join(map(chr, run)).encode('utf-8', 'surrogatepass') if bl.unit == 't' else bytes(run)
        cid = literal_cid(lit)
        if bl.base.kind == 'text':
            try:
                nch = len(lit.decode('utf-8'))
            except UnicodeDecodeError:
                return False
            engine().assume(z3.Implies(z(bl.base.cid) == cid, z3.And(z(bl.base.nb) == len(lit), z(bl.base.n) == nch)))
        else:
            engine().assume(z3.Implies(z(bl.base.cid) == cid, z(bl.base.nb) == len(lit)))
        return z(bl.base.cid) == cid
    if k == 'dec':
        s = ''.join(map(chr, run))
        try:
            v = int(s)
        except ValueError:
            return False
        return (z(bl.base.payload) == v) if str(v) == s else False
    if k in ('hash', 'sig', 'hashhex', 'bc'):
        return False
    raise Unsupported('comparison of %s with a literal' % k)


class SymStr(Seq):
    __slots__ = ()
    UNIT = 't'
    __class__ = property(lambda self: str)

    @staticmethod
    def native(cells):
        return ''.join(map(chr, cells))

    @classmethod
    def lift(cls, x):
        t = type(x)
        if t is str:
            return [ord(c) for c in x]
        if t is SymStr:
            return list(x.cells)
        if t is SymChoice:
            return [ord(c) for c in x.realize()]
        if isinstance(x, str) and not is_sym(x):
            return [ord(c) for c in str(x)]
        return None

    def _elem(self, c):
        return SymStr.make([c])

    def __str__(self):
        raise Unsupported('text of a symbolic string in native code')

    def __repr__(self):
        return 'SymStr(%r)' % (self.cells,)

    def __format__(self, spec):
        raise Unsupported('native formatting of a symbolic string')

    # -- predicates -----------------------------------------------------------------------------------------
    def _pred(self, name):
        cells = self.drop_empty()
        if not cells:
            return ''.__getattribute__(name)()
        if name in ('isupper', 'islower', 'istitle', 'isidentifier') and len(cells) > 1:
            return getattr(self.realize(), name)()
        conj = []
        for c in cells:
            if type(c) is Blob:
                if c.base.kind == 'dec' and name in ('isdigit', 'isdecimal', 'isnumeric'):
                    conj.append(z(c.base.payload) >= 0)
                    continue
                raise Unsupported('%s of an opaque string' % name)
            if type(c) is int:
                if not getattr(chr(c), name)():
                    return False
                continue
            d = char_domain(c)
            conj.append(Domain._in(c, d.pred(name)))
        return mkbool(z3.And(*conj)) if conj else True

    def isalpha(self): return self._pred('isalpha')
    def isdigit(self): return self._pred('isdigit')
    def isdecimal(self): return self._pred('isdecimal')
    def isnumeric(self): return self._pred('isnumeric')
    def isspace(self): return self._pred('isspace')
    def isalnum(self): return self._pred('isalnum')
    def isupper(self): return self._pred('isupper')
    def islower(self): return self._pred('islower')
    def isprintable(self): return self._pred('isprintable')
    def isidentifier(self): return self._pred('isidentifier')

    def isascii(self):
        return And(*[mkbool(unit_expr(c) < 128) for c in self.drop_empty()])

    def _is_space(self, c):
        if type(c) is int:
            return chr(c).isspace()
        return mkbool(Domain._in(c, char_domain(c).pred('isspace')))

    def _case(self, name):
        out = []
        for c in self.drop_empty():
            if type(c) is Blob:
                k = c.base.kind
                if k == 'dec' or (k == 'text' and c.base.plain and name in ('lower', 'casefold')):
                    out.append(c)
                    continue
                raise Unsupported('%s of an opaque string' % name)
            if type(c) is int:
                out += [ord(x) for x in getattr(chr(c), name)()]
                continue
            d = char_domain(c)
            deltas, special = d.casemap(name)
            if special and engine().branch(Domain._in(c, special)):
                v = engine().realize_int(c)
                out += [ord(x) for x in getattr(chr(v), name)()]
                continue
            e = c
            for dl, codes in sorted(deltas.items()):
                e = z3.If(Domain._in(c, codes), c + dl, e)
            e = simp(e)
            if not z3.is_int_value(e):
                note_domain(e, d if d is ASCII else LATIN_CASED)
            out.append(e.as_long() if z3.is_int_value(e) else e)
        return SymStr.make(out)

    def lower(self): return self._case('lower')
    def upper(self): return self._case('upper')
    def casefold(self): return self._case('casefold')

    def swapcase(self):
        return self._case('swapcase')

    # -- conversion -----------------------------------------------------------------------------------------
    def encode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc not in ('utf-8', 'utf8', 'ascii', 'latin-1', 'iso-8859-1', 'latin1'):
            return self.realize().encode(encoding, errors)
        out = []
        self.cells = expand(self.cells)
        for c in self.cells:
            if type(c) is Blob:
                b = c.base
                if enc in ('utf-8', 'utf8') or b.kind not in ('text', 'opaque'):
                    if not c.full():
                        raise Unsupported('encoding of a part of an opaque string')
                    out.append(Blob(b, 0, b.nb, 'b'))
                else:
                    # ascii / latin-1: possible only if every character is one byte in UTF-8
                    if decide_eq(b.n, b.nb):
                        out.append(Blob(b, 0, b.nb, 'b'))
                    else:
                        raise UnicodeEncodeError(enc, '?', 0, 1, 'ordinal not in range')
            elif type(c) is int:
                out += list(chr(c).encode(encoding, errors))
            else:
                if engine().branch(c < (256 if enc in ('latin-1', 'latin1', 'iso-8859-1') else 128)):
                    out.append(c)
                elif enc.startswith('utf'):
                    if engine().branch(c < 0x800):
                        out += [norm(0xC0 + c / 64), norm(0x80 + c % 64)]
                    else:
                        v = engine().realize_int(c)
                        out += list(chr(v).encode('utf-8'))
                elif enc == 'ascii':
                    raise UnicodeEncodeError('ascii', '?', 0, 1, 'ordinal not in range')
                else:
                    raise UnicodeEncodeError('latin-1', '?', 0, 1, 'ordinal not in range')
        return SymBytes.make(out)

    def to_int(self, base=10):
        """int(self)"""
        s = self.strip()
        if not is_sym(s):
            return int(s, base)
        cells = s.cells
        if len(cells) == 1 and type(cells[0]) is Blob and cells[0].full():
            k = cells[0].base.kind
            if k == 'dec' and base == 10:
                return mkint(cells[0].base.payload)
            if k == 'hex' and base == 16:
                return mkint(cells[0].base.payload[0])
            if k == 'dec':
                return int(s.realize(), base)
        if any(type(c) is Blob for c in cells) or base not in (10, 16):
            return int(s.realize(), base)
        sign = 1
        if bool(s.startswith('-')):
            sign, cells = -1, cells[1:]
        elif bool(s.startswith('+')):
            cells = cells[1:]
        if not cells:
            raise ValueError('invalid literal for int()')
        v = z3.IntVal(0)
        for c in cells:
            c = unit_expr(c)
            dec, low, up = z3.And(c >= 48, c <= 57), z3.And(c >= 97, c <= 102), z3.And(c >= 65, c <= 70)
            if base == 10 and engine().branch(dec):
                d = c - 48
            elif base == 16 and engine().branch(z3.Or(dec, low, up)):
                d = z3.If(dec, c - 48, z3.If(low, c - 87, c - 55))
            else:
                ch = chr(engine().realize_int(c))
                if ch == '_':
                    raise Unsupported('underscore in a number')
                d = int(ch, base)          # other decimal digits, or ValueError
            v = v * base + d
        return mkint(v * sign)

    def to_float(self):
        s = self.strip()
        if not is_sym(s):
            return float(s)
        if not s.simple():
            return float(s.realize())
        cells = s.cells
        sign = 1
        if bool(s.startswith('-')):
            sign, cells = -1, cells[1:]
        elif bool(s.startswith('+')):
            cells = cells[1:]
        num, den, seen_dot, digits = z3.IntVal(0), 1, False, 0
        for c in cells:
            c = unit_expr(c)
            if engine().branch(z3.And(c >= 48, c <= 57)):
                num = num * 10 + (c - 48)
                digits += 1
                if seen_dot:
                    den *= 10
            elif not seen_dot and engine().branch(c == 46):
                seen_dot = True
            else:
                return float(SymStr.make(self.cells).realize())
        if not digits:
            raise ValueError('could not convert string to float')
        if den > 10 ** 15 or digits > 15:
            raise Unsupported('long float literal')
        return DecFloat(simp(num * sign), den)


class DecFloat(SymFloat):
    """float('d.dd'): the double nearest to num/den (num symbolic, at most 15 digits: distinct texts, distinct doubles)."""
    __slots__ = ('num', 'den')

    def __init__(self, num, den):
        self.num = num
        self.den = den
        super().__init__(z3.ToReal(num) / den)


class SymBytes(Seq):
    __slots__ = ()
    UNIT = 'b'
    __class__ = property(lambda self: bytes)

    @staticmethod
    def native(cells):
        return bytes(cells)

    @staticmethod
    def encode_native(s):
        return s.encode()

    @classmethod
    def lift(cls, x):
        t = type(x)
        if t in (bytes, bytearray):
            return list(x)
        if t in (SymBytes, SymByteArray):
            return list(x.cells)
        if t is memoryview:
            return list(bytes(x))
        return None

    def _elem(self, c):
        return mkint(unit_expr(c))

    def _is_space(self, c):
        e = unit_expr(c)
        return mkbool(z3.Or(*[e == k for k in (9, 10, 11, 12, 13, 32)]))

    def __repr__(self):
        return 'SymBytes(%r)' % (self.cells,)

    def __contains__(self, o):
        if isinstance(o, int):
            return bool(Or(*[mkbool(unit_expr(c) == term(o)) for c in self._search_cells([term(o)]) if type(c) is not Blob]))
        return Seq.__contains__(self, o)

    def decode(self, encoding='utf-8', errors='strict'):
        enc = encoding.lower().replace('_', '-')
        if enc not in ('utf-8', 'utf8', 'ascii', 'latin-1', 'iso-8859-1', 'latin1'):
            return self.realize().decode(encoding, errors)
        out = []
        cells = self.cells
        i = 0
        while i < len(cells):
            c = cells[i]
            if type(c) is Blob:
                b = c.base
                if not c.full():
                    # a part of an opaque text: empty, or cut at an unknown character boundary
                    if decide_eq(c.length(), 0):
                        i += 1
                        continue
                    if b.kind != 'text' or not enc.startswith('utf'):
                        raise Unsupported('decoding of a part of an opaque string')
                    # over-approximated: cut inside a character, or some text of this size
                    eng = engine()
                    nm = eng.fresh_name('part')
                    if eng.branch(z3.Int(nm + '.broken') == 1):
                        raise UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'unexpected end of data')
                    n = z3.Int(nm + '.n')
                    nb = c.length()
                    eng.assume(z3.And(n >= 1, n <= nb, nb <= 4 * n))
                    out.append(Blob(Base('text', nm, n, nb=nb, cid=z3.Int(nm + '.cid')), 0, n, 't'))
                    i += 1
                    continue
                if b.kind in ('text', 'opaque'):
                    if not enc.startswith('utf') and not decide_eq(b.n, b.nb):
                        raise Unsupported('decoding of non-ASCII bytes as %s' % enc)
                    out.append(Blob(b, 0, b.n, 't'))
                elif b.kind in ('b64', 'b64u', 'dec', 'hex', 'hashhex', 'key', 'bc'):
                    out.append(Blob(b, 0, b.n, 't'))
                elif b.kind == 'zeros':
                    out.append(Blob(b, 0, b.n, 't'))
                else:
                    raise Unsupported('decoding of opaque bytes')
                i += 1
                continue
            if type(c) is int and c < 128:
                out.append(c)
                i += 1
                continue
            if type(c) is int:
                # native multi-byte sequence
                for n in (2, 3, 4):
                    seg = cells[i:i + n]
                    if all(type(x) is int for x in seg):
                        try:
                            s = bytes(seg).decode('utf-8')
                        except UnicodeDecodeError:
                            continue
                        if len(s) == 1:
                            out.append(ord(s))
                            i += n
                            break
                else:
                    if enc.startswith('utf') or enc == 'ascii':
                        bytes([c]).decode('ascii')
                    out.append(c)
                    i += 1
                continue
            e = unit_expr(c)
            if engine().branch(e < 128):
                out.append(norm(e))
                i += 1
                continue
            if enc == 'ascii':
                raise UnicodeDecodeError('ascii', b'?', 0, 1, 'ordinal not in range')
            if not enc.startswith('utf'):
                out.append(norm(e))
                i += 1
                continue
            if i + 1 < len(cells) and type(cells[i + 1]) is not Blob and engine().branch(z3.And(e >= 0xC2, e <= 0xDF)):
                f = unit_expr(cells[i + 1])
                if engine().branch(z3.And(f >= 0x80, f <= 0xBF)):
                    out.append(norm((e - 0xC0) * 64 + (f - 0x80)))
                    i += 2
                    continue
            raise Unsupported('decoding of symbolic bytes')
        return SymStr.make(out)

    def hex(self):
        return self.realize().hex()


class SymByteArray(SymBytes):
    __slots__ = ()
    __class__ = property(lambda self: bytearray)
    __hash__ = None

    @classmethod
    def make(cls, cells):
        return cls(cells)       # stays mutable

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            new = SymBytes.lift(v)
            if new is None:
                new = [term(x) for x in v]
            if i.start is None and i.stop is None and i.step is None:
                self.cells = list(new)
                return
            a, b = self._bounds(i)
            left, _ = self.split_at(self.cells, a)
            _, right = self.split_at(self.cells, b)
            self.cells = left + new + right
            return
        k = i if type(i) is int else i.__index__()
        if not self.simple():
            raise Unsupported('assignment into a blob')
        self.cells[k] = norm(z(term(v)))

    def __delitem__(self, i):
        if isinstance(i, slice):
            self[i] = b''
            return
        k = i if type(i) is int else i.__index__()
        del self[k:k + 1]

    def __iadd__(self, o):
        c = self.lift(o)
        if c is None:
            return NotImplemented
        self.cells = self.cells + c
        return self

    def extend(self, o):
        c = self.lift(o)
        self.cells = self.cells + (c if c is not None else [term(x) for x in o])

    def append(self, v):
        self.cells = self.cells + [term(v)]

    def clear(self):
        self.cells = []

    def pop(self, i=-1):
        r = self[i]
        del self[i]
        return r

    def copy(self):
        return SymByteArray(self.cells)

    def __repr__(self):
        return 'SymByteArray(%r)' % (self.cells,)


LATIN_CASED = Domain(set(LATIN.codes) | set(ord(c) for x in LATIN.codes for c in (chr(x).lower(), chr(x).upper(), chr(x).swapcase(), chr(x).casefold()) if len(c) == 1))


class SymChoice(Sym):
    """One of finitely many native strings, each under a z3 condition (exactly one holds)."""
    __slots__ = ('alts',)
    __class__ = property(lambda self: str)

    def __init__(self, alts):
        self.alts = alts

    def realize(self):
        for c, s in self.alts[:-1]:
            if engine().branch(c):
                return s
        return self.alts[-1][1]

    def _map(self, f):
        return SymChoice([(c, f(s)) for c, s in self.alts])

    def upper(self): return self._map(str.upper)
    def lower(self): return self._map(str.lower)
    def casefold(self): return self._map(str.casefold)
    def strip(self, *a): return self._map(lambda s: s.strip(*a))

    def __eq__(self, o):
        if type(o) is str:
            return Or(*[SymBool(c) for c, s in self.alts if s == o])
        if type(o) is SymChoice:
            return Or(*[And(SymBool(c), SymBool(d)) for c, s in self.alts for d, t in o.alts if s == t])
        if type(o) is SymStr:
            return o == self.realize()
        return False

    def __ne__(self, o): return Not(self.__eq__(o))
    def __bool__(self): return bool(Or(*[SymBool(c) for c, s in self.alts if s]))
    def __hash__(self): return hash(self.realize())
    def __len__(self): return len(self.realize())
    def __str__(self): return self.realize()
    def __repr__(self): return 'SymChoice(%s)' % [s for c, s in self.alts]
    def __format__(self, spec): return format(self.realize(), spec)
    def __iter__(self): return iter(self.realize())
    def __getitem__(self, i): return self.realize()[i]
    def __contains__(self, o): return o in self.realize()
    def __add__(self, o): return self.realize() + o
    def __radd__(self, o): return o + self.realize()
    def __mod__(self, o): return self.realize() % o
    def __lt__(self, o): return self.realize() < o
    def __le__(self, o): return self.realize() <= o
    def __gt__(self, o): return self.realize() > o
    def __ge__(self, o): return self.realize() >= o

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.realize(), name)


class SymEnum(Sym):
    """A symbolic member of an enum class; e is a z3 Int equal to the member's (integer) value."""
    __slots__ = ('cls', 'e', 'members')

    def __init__(self, cls, e, members=None):
        object.__setattr__(self, 'cls', cls)
        object.__setattr__(self, 'e', e)
        object.__setattr__(self, 'members', members or list(cls))

    __class__ = property(lambda self: self.cls)

    def realize(self):
        return self.cls(engine().realize_int(self.e))

    def _own(self, name):
        """The method of that name if the enum class (not the enum module) defines it."""
        for c in self.cls.__mro__:
            if c.__module__ == 'enum' or c in (int, object, str):
                return None
            f = c.__dict__.get(name)
            if f is not None:
                return f
        return None

    def _eq(self, o):
        if type(o) is SymEnum:
            if o.cls is not self.cls:
                return (self.value == o.value) if issubclass(self.cls, int) and issubclass(o.cls, int) else False
            return mkbool(self.e == o.e)
        if type(o) is self.cls:
            return eq_const(self.e, o.value) if type(o.value) is int else mkbool(self.e == o.value)
        if issubclass(self.cls, int) and isinstance(o, (int, float)):
            return self.value == o
        return NotImplemented

    def __eq__(self, o):
        f = self._own('__eq__')
        return self._eq(o) if f is None else f(self, o)

    def __ne__(self, o):
        f = self._own('__ne__')
        if f is not None:
            return f(self, o)
        r = self.__eq__(o)
        return r if r is NotImplemented else Not(r)

    def __hash__(self): return hash(self.realize())

    def __bool__(self):
        f = self._own('__bool__')
        if f is not None:
            return bool(f(self))
        return bool(self.value) if issubclass(self.cls, int) else True

    def _bin(self, name, o):
        f = self._own(name)
        if f is not None:
            return f(self, o)
        if issubclass(self.cls, int):
            if type(o) is SymEnum:
                o = o.value
            return getattr(SymInt(z(self.e)), name)(o)
        return NotImplemented

    def __and__(self, o): return self._bin('__and__', o)
    def __or__(self, o): return self._bin('__or__', o)
    def __xor__(self, o): return self._bin('__xor__', o)
    def __rand__(self, o): return self._bin('__rand__', o)
    def __ror__(self, o): return self._bin('__ror__', o)
    def __lt__(self, o): return self._bin('__lt__', o)
    def __le__(self, o): return self._bin('__le__', o)
    def __gt__(self, o): return self._bin('__gt__', o)
    def __ge__(self, o): return self._bin('__ge__', o)
    def __add__(self, o): return self._bin('__add__', o)
    def __sub__(self, o): return self._bin('__sub__', o)

    def __invert__(self):
        f = self._own('__invert__')
        return f(self) if f is not None else ~self.realize()

    def __index__(self):
        if issubclass(self.cls, int):
            return int(self.realize())
        raise TypeError('not an integer')

    __int__ = __index__

    def __repr__(self): return 'SymEnum(%s)' % self.e
    def __str__(self): return str(self.realize())
    def __format__(self, spec): return format(self.realize(), spec)

    @property
    def value(self):
        return mkint(self.e)

    @property
    def name(self):
        return SymChoice([(self.e == m.value, m.name) for m in self.members])

    def __getattr__(self, name):
        f = self._own(name)
        if f is not None:
            if isinstance(f, types.FunctionType):
                return types.MethodType(f, self)
            if isinstance(f, staticmethod):
                return f.__func__
            if isinstance(f, property):
                return f.fget(self)
            if isinstance(f, classmethod):
                return types.MethodType(f.__func__, self.cls)
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.realize(), name)


# ---------------------------------------------------------------------------------------------------------------
# containers


def check_hashable(x):
    if is_sym(x):
        if type(x) in (SymByteArray, SymSet):
            raise TypeError("unhashable type: '%s'" % x.__class__.__name__)
        return
    if type(x).__hash__ is None:
        raise TypeError("unhashable type: '%s'" % type(x).__name__)
    if type(x) is tuple:
        for e in x:
            check_hashable(e)


def plain_hashable(x):
    """True if x can be looked up natively (no symbolic part)."""
    return not deep_sym(x)


def same_key(a, b):
    """Dictionary/set key equality, may return SymBool."""
    if a is b:
        return True
    return a == b


class SymSet(Sym):
    """A set whose elements may be symbolic: a duplicate-free list (duplicates are decided by forking)."""
    __slots__ = ('items', 'frozen')

    def __init__(self, items=(), frozen=False):
        self.items = []
        self.frozen = frozen
        for x in items:
            self._add(x)

    @property
    def __class__(self):
        return frozenset if self.frozen else set

    def _add(self, x):
        check_hashable(x)
        for y in self.items:
            if bool(same_key(y, x)):
                return
        self.items.append(x)

    @staticmethod
    def of(o):
        if type(o) is SymSet:
            return o.items
        return list(o)

    def has(self, x):
        """membership as SymBool (no fork)"""
        check_hashable(x)
        return Or(*[same_key(y, x) for y in self.items])

    def __contains__(self, x): return bool(self.has(x))
    def __iter__(self): return iter(list(self.items))
    def __len__(self): return len(self.items)
    def __bool__(self): return len(self.items) > 0
    def __hash__(self): raise TypeError("unhashable type: 'set'")
    def __repr__(self): return 'SymSet(%r)' % self.items

    def _check(self, o):
        return type(o) is SymSet or isinstance(o, (set, frozenset))

    def issubset(self, o):
        items = SymSet.of(o)
        return And(*[Or(*[same_key(y, x) for y in items]) for x in self.items])

    def issuperset(self, o):
        return And(*[Or(*[same_key(y, x) for y in self.items]) for x in SymSet.of(o)])

    def isdisjoint(self, o):
        return Not(Or(*[same_key(y, x) for x in SymSet.of(o) for y in self.items]))

    def __eq__(self, o):
        if not self._check(o):
            return False
        return And(self.issubset(o), self.issuperset(o))

    def __ne__(self, o): return Not(self.__eq__(o))
    def __le__(self, o): return self.issubset(o) if self._check(o) else NotImplemented
    def __ge__(self, o): return self.issuperset(o) if self._check(o) else NotImplemented
    def __lt__(self, o): return And(self.issubset(o), Not(self.issuperset(o))) if self._check(o) else NotImplemented
    def __gt__(self, o): return And(self.issuperset(o), Not(self.issubset(o))) if self._check(o) else NotImplemented

    def intersection(self, *os):
        r = list(self.items)
        for o in os:
            ys = SymSet.of(o)
            r = [x for x in r if bool(Or(*[same_key(y, x) for y in ys]))]
        return SymSet(r)

    def difference(self, *os):
        r = list(self.items)
        for o in os:
            ys = SymSet.of(o)
            r = [x for x in r if not bool(Or(*[same_key(y, x) for y in ys]))]
        return SymSet(r)

    def union(self, *os):
        s = SymSet(self.items)
        for o in os:
            for x in SymSet.of(o):
                s._add(x)
        return s

    def symmetric_difference(self, o):
        return self.difference(o).union(SymSet(SymSet.of(o)).difference(self))

    def __and__(self, o): return self.intersection(o) if self._check(o) else NotImplemented
    __rand__ = __and__
    def __or__(self, o): return self.union(o) if self._check(o) else NotImplemented
    __ror__ = __or__
    def __sub__(self, o): return self.difference(o) if self._check(o) else NotImplemented
    def __rsub__(self, o): return SymSet(SymSet.of(o)).difference(self) if self._check(o) else NotImplemented
    def __xor__(self, o): return self.symmetric_difference(o) if self._check(o) else NotImplemented
    __rxor__ = __xor__

    def add(self, x): self._add(x)

    def update(self, *os):
        for o in os:
            for x in SymSet.of(o):
                self._add(x)

    def discard(self, x):
        for i, y in enumerate(self.items):
            if bool(same_key(y, x)):
                del self.items[i]
                return

    def remove(self, x):
        n = len(self.items)
        self.discard(x)
        if len(self.items) == n:
            raise KeyError(x)

    def pop(self):
        if not self.items:
            raise KeyError('pop from an empty set')
        return self.items.pop()

    def clear(self): self.items = []
    def copy(self): return SymSet(self.items)


class SxDict(dict):
    """A dict that also accepts symbolic keys: entries in insertion order, looked up by (forking) equality."""

    def __init__(self, *a, **k):
        dict.__init__(self)
        self._sym = []            # list of [key, value] for symbolic keys, in order
        self._order = None        # None: no symbolic keys so far, native order
        if a:
            src = a[0]
            if hasattr(src, 'keys'):
                for key in list(src.keys()):
                    self[key] = src[key]
            else:
                for key, v in src:
                    self[key] = v
        for key in k:
            self[key] = k[key]

    # entries are [key, value]; _order lists all entries once symbolic keys exist
    def _entries(self):
        if self._order is None:
            return [[k, v] for k, v in dict.items(self)]
        return self._order

    def _find(self, key):
        check_hashable(key)
        if self._order is None:
            if plain_hashable(key):
                return ('n', key) if dict.__contains__(self, key) else None
            for k in dict.keys(self):
                if bool(same_key(key, k)):
                    return ('n', k)
            return None
        for e in self._order:
            if bool(same_key(e[0], key)):
                return ('e', e)
        return None

    def __getitem__(self, key):
        f = self._find(key)
        if f is None:
            raise KeyError(key if not is_sym(key) else 'symbolic')
        return dict.__getitem__(self, f[1]) if f[0] == 'n' else f[1][1]

    def __setitem__(self, key, v):
        f = self._find(key)
        if f is not None:
            if f[0] == 'n':
                dict.__setitem__(self, f[1], v)
            else:
                f[1][1] = v
            return
        if self._order is None:
            if plain_hashable(key):
                dict.__setitem__(self, key, v)
                return
            self._order = [[k, x] for k, x in dict.items(self)]
            dict.clear(self)
        self._order.append([key, v])

    def __delitem__(self, key):
        f = self._find(key)
        if f is None:
            raise KeyError('symbolic')
        if f[0] == 'n':
            dict.__delitem__(self, f[1])
        else:
            self._order.remove(f[1])

    def get(self, key, default=None):
        f = self._find(key)
        if f is None:
            return default
        return dict.__getitem__(self, f[1]) if f[0] == 'n' else f[1][1]

    def __contains__(self, key): return self._find(key) is not None
    def keys(self): return dict.keys(self) if self._order is None else [e[0] for e in self._order]
    def values(self): return dict.values(self) if self._order is None else [e[1] for e in self._order]
    def items(self): return dict.items(self) if self._order is None else [(e[0], e[1]) for e in self._order]
    def __iter__(self): return dict.__iter__(self) if self._order is None else iter([e[0] for e in self._order])
    def __len__(self): return dict.__len__(self) if self._order is None else len(self._order)
    def __bool__(self): return len(self) > 0

    def setdefault(self, key, d=None):
        f = self._find(key)
        if f is None:
            self[key] = d
            return d
        return self[key]

    _MISSING = object()

    def pop(self, key, d=_MISSING):
        f = self._find(key)
        if f is None:
            if d is SxDict._MISSING:
                raise KeyError('symbolic')
            return d
        v = self[key]
        del self[key]
        return v

    def update(self, *a, **k):
        for src in a:
            if hasattr(src, 'keys'):
                for key in list(src.keys()):
                    self[key] = src[key]
            else:
                for key, v in src:
                    self[key] = v
        for key in k:
            self[key] = k[key]

    def copy(self): return SxDict(self)

    def clear(self):
        dict.clear(self)
        self._order = None

    def __eq__(self, o):
        if not isinstance(o, dict):
            return False
        if len(self) != len(o):
            return False
        o = o if isinstance(o, SxDict) else SxDict(o)
        return all(k in o and bool(o[k] == v) for k, v in self.items())

    def __ne__(self, o): return not self.__eq__(o)
    __hash__ = None
    def __or__(self, o):
        r = SxDict(self)
        r.update(o)
        return r
    def __repr__(self): return 'SxDict(%r)' % (list(self.items()),)


def expand_model(cells, ev):
    """Like expand, but evaluated under a model (no forks)."""
    out = []
    for c in cells:
        if type(c) is Blob and c.base.kind == 'lazy':
            out.append(Blob(Base('opaque', 'lazy', c.base.n), c.lo, c.hi, c.unit))
        else:
            out.append(c)
    return out
