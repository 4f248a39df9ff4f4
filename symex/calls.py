"""Run-time support of the rewritten code: what a call, a membership test, ... means when an operand is symbolic."""
import re
import base64 as _base64
import builtins
import enum
import functools
import ipaddress as _ipaddress
import os as _os
import string as _string
import struct as _struct
import time as _time
import types
import z3

from . import values as V
from . import core
from .core import engine, Unsupported, Steer
from .values import (Sym, is_sym, deep_sym, SymBool, SymInt, SymFloat, SymStr, SymBytes, SymByteArray, SymSet, SxDict,
                     SymEnum, SymChoice, Seq, Blob, Base, mkint, mkbool, And, Or, Not)

Catchable = (Exception, SystemExit, KeyboardInterrupt, GeneratorExit)

ENTERED = set()


def enter(name):
    ENTERED.add(name)


# ---------------------------------------------------------------------------------------------------------------
# operators


def contains(x, c):
    t = type(c)
    if t is SymSet:
        return c.has(x)
    if t in (tuple, list):
        return Or(*[(x is y) or _truth(x == y) for y in c])
    if t in (set, frozenset):
        if deep_sym(x):
            V.check_hashable(x)
            return Or(*[_truth(x == y) for y in c])
        return x in c
    if t is str and is_sym(x):
        return SymStr(SymStr.lift(c)).__contains__(x) if isinstance(x, str) else (x in c)
    if t in (bytes, bytearray) and is_sym(x):
        return SymBytes(SymBytes.lift(c)).__contains__(x)
    if t is dict and deep_sym(x):
        V.check_hashable(x)
        return Or(*[_truth(x == y) for y in c])
    if t in (type({}.keys()), type({}.values())) and deep_sym(x):
        return Or(*[_truth(x == y) for y in c])
    if isinstance(c, enum.EnumMeta) and is_sym(x):
        if type(x) is SymEnum:
            return x.cls is c
        return Or(*[_truth(x == m.value) for m in c])
    return x in c


def _truth(r):
    return r if type(r) in (bool, SymBool) else bool(r)


def not_contains(x, c):
    return Not(contains(x, c))


def is_(a, b):
    if a is b:
        return True
    if type(a) is SymEnum or type(b) is SymEnum:
        e, o = (a, b) if type(a) is SymEnum else (b, a)
        if type(o) is SymEnum:
            return mkbool(e.e == o.e) if e.cls is o.cls else False
        if type(o) is e.cls:
            return mkbool(e.e == o.value)
        return False
    if type(a) is SymBool and type(b) is bool:
        return a == b
    if type(b) is SymBool and type(a) is bool:
        return b == a
    return False


def is_not(a, b):
    return Not(is_(a, b))


def mkdict(pairs):
    d = SxDict()
    for p in pairs:
        if len(p) == 1:
            d.update(p[0])
        else:
            d[p[0]] = p[1]
    return d


def mkset(items):
    return SymSet(items)


def mod(a, b):
    if type(a) in (str, SymStr, SymChoice):
        return percent(a, b)
    if type(a) in (bytes, bytearray) and deep_sym(b):
        raise Unsupported('bytes % symbolic')
    return a % b


# ---------------------------------------------------------------------------------------------------------------
# text


HEX_FLAGS = re.compile(r'(?:0(\d*))?(?:\.(\d*))?')


def lazy_choice(ch):
    n = z3.IntVal(len(ch.alts[-1][1]))
    for c, s in reversed(ch.alts[:-1]):
        n = z3.If(c, z3.IntVal(len(s)), n)
    n = V.norm(n)
    return SymStr([Blob(Base('lazy', 'choice', n, payload=ch.realize), 0, n, 't')])


def opaque(name):
    eng = engine()
    n = z3.Int(eng.fresh_name('len!' + name))
    eng.assume(z3.And(n >= 1, n <= 10000))
    return SymStr([Blob(Base('opaque', name, n, nb=n, payload=None, plain=False), 0, n, 't')])


def to_text(v, conv=''):
    """str(v) (conv '' or 's') or repr(v) (conv 'r') as native or symbolic string"""
    if conv in ('r', 'a'):
        return to_repr(v)
    t = type(v)
    if t is str or t is SymStr:
        return v
    if t is SymChoice:
        return lazy_choice(v)
    if t is SymInt:
        return V.dec_text(v.e)
    if t is SymBool:
        return 'True' if bool(v) else 'False'
    if issubclass(t, SymFloat):
        e = None if issubclass(t, V.DecFloat) else z3.simplify(v.e)
        if e is not None and z3.is_rational_value(e) and float(e.as_fraction()) == e.as_fraction():
            return str(float(e.as_fraction()))
        return opaque('float')
    if t is SymEnum:
        f = v.cls.__dict__.get('__str__')
        if isinstance(f, types.FunctionType):
            return to_text(f(v))
        if issubclass(v.cls, int):
            return to_text(v.value)
        return lazy_choice(SymChoice([(v.e == m.value, str(m)) for m in v.members]))
    if t in (SymBytes, SymByteArray):
        return seq_repr(v)
    if t is SymSet:
        return opaque('repr')
    if t in (int, float, bool, bytes, type(None)):
        return str(v)
    if t in (list, tuple, set, dict, SxDict, bytearray, frozenset):
        return to_repr(v)
    f = getattr(t, '__str__', None)
    if isinstance(f, types.FunctionType):
        r = f(v)
        return r if isinstance(r, str) else to_text(r)
    f = getattr(t, '__repr__', None)
    if isinstance(f, types.FunctionType) and not issubclass(t, BaseException):
        return f(v)
    if isinstance(v, BaseException) and deep_sym(v.args):
        if len(v.args) == 1:
            return to_text(v.args[0])
        return opaque('repr')
    return str(v)


def seq_repr(v):
    """repr of a symbolic string or byte string, where no character needs an escape that depends on its value"""
    text = type(v) is SymStr
    out = []
    for c in V.known_content(v.cells):
        if type(c) is V.Blob:
            if not (c.full() and (c.base.kind in ('b64', 'b64u', 'dec', 'hex', 'hashhex', 'bc') or (c.base.kind == 'text' and c.base.plain and text))):
                return opaque('repr')
            out.append(c if text else V.Blob(c.base, 0, c.base.n, 't'))
        elif type(c) is int:
            if c in (34, 39):
                return opaque('repr')
            out += map(ord, repr(chr(c) if text else bytes([c]))[1 if text else 2:-1])
        elif z3.is_expr(c) and engine().entails(z3.And(c >= 32, c <= 126, c != 34, c != 39, c != 92)):
            out.append(c)
        else:
            return opaque('repr')
    pre, post = ("'", "'") if text else ("bytearray(b'", "')") if type(v) is SymByteArray else ("b'", "'")
    return pre + SymStr.make(out) + post


def to_repr(v):
    t = type(v)
    if t in (SymStr, SymBytes, SymByteArray):
        return seq_repr(v)
    if t is SymInt:
        return V.dec_text(v.e)
    if is_sym(v):
        return opaque('repr')
    if t is list:
        return join(', ', [to_repr(x) for x in v], '[', ']')
    if t is tuple:
        return join(', ', [to_repr(x) for x in v], '(', ',)' if len(v) == 1 else ')')
    if t in (dict, SxDict):
        return join(', ', [join(': ', [to_repr(k), to_repr(x)]) for k, x in v.items()], '{', '}')
    if t in (int, float, bool, str, bytes, bytearray, type(None), set, frozenset):
        return repr(v)
    f = getattr(t, '__repr__', None)
    if isinstance(f, types.FunctionType):
        return f(v)
    if isinstance(v, BaseException) and deep_sym(v.args):
        return opaque('repr')
    return repr(v)


def join(sep, parts, pre='', post=''):
    r = pre
    for i, p in enumerate(parts):
        if i:
            r = r + sep
        r = r + p
    return r + post


def fmt(v, spec, conv=''):
    if conv:
        v = to_text(v, conv)
    if type(spec) is not str:
        spec = spec.realize()
    t = type(v)
    if t is SymBool and spec == '':
        return to_text(v)
    if t in (SymInt, SymBool) or (t is SymEnum and issubclass(v.cls, int)):
        if t is SymBool:
            v = v._int()
        if t is SymEnum:
            v = v.value
        if spec in ('', 'd'):
            return V.dec_text(v.e) if type(v) is SymInt else str(v)
        if spec and spec[-1] in 'xX' and type(v) is SymInt:
            w = spec[:-1]
            if w == '' or (w[0] == '0' and w[1:].isdigit()):
                return V.hex_text(v.e, spec[-1] == 'X', int(w[1:]) if w else 0)
        return format(v.__index__(), spec)
    if t is SymStr or t is SymChoice:
        if spec in ('', 's'):
            return to_text(v)
        return format(v.realize(), spec)
    if is_sym(v):
        if spec in ('', 's'):
            return to_text(v)
        raise Unsupported('format of %s with %r' % (t.__name__, spec))
    if spec == '' and not isinstance(v, (str, int, float, bytes, type(None))):
        f = getattr(t, '__format__', None)
        if f is object.__format__:
            return to_text(v)
    return format(v, spec)


def fstring(*parts):
    r = ''
    for p in parts:
        r = r + (p if type(p) is str else fmt(p[0], p[2], p[1]))
    return r


def str_format(s, args, kw):
    """s.format(*args, **kw)"""
    auto = 0
    r = ''
    for lit, field, spec, conv in _string.Formatter().parse(s):
        r = r + lit
        if field is None:
            continue
        first, rest = _string._string.formatter_field_name_split(field) if hasattr(_string, '_string') else (field, ())
        if first == '':
            first = auto
            auto += 1
        obj = args[first] if isinstance(first, int) else kw[first]
        for is_attr, name in rest:
            obj = getattr(obj, name) if is_attr else obj[name]
        if spec and '{' in spec:
            spec = str_format(spec, args, kw)
        r = r + fmt(obj, spec or '', conv or '')
    return r


def percent(s, arg):
    """s % arg for text"""
    if type(s) is not str:
        if not deep_sym(arg):
            pass
        s = s.realize()
    args = arg if type(arg) is tuple else (arg,)
    if not deep_sym(args) and not any(isinstance(type(a), type) and '__sx__' in getattr(__import__('sys').modules.get(type(a).__module__), '__dict__', {}) for a in args):
        return s % arg
    r = ''
    i = 0
    k = 0
    n = len(s)
    while i < n:
        j = s.find('%', i)
        if j < 0:
            r = r + s[i:]
            break
        r = r + s[i:j]
        m = j + 1
        key = None
        if m < n and s[m] == '(':
            e = s.index(')', m)
            key = s[m + 1:e]
            m = e + 1
        flags = m
        while m < n and s[m] in '#0- +':
            m += 1
        while m < n and s[m].isdigit():
            m += 1
        if m < n and s[m] == '.':
            m += 1
            while m < n and s[m].isdigit():
                m += 1
        c = s[m]
        f = s[flags:m]
        i = m + 1
        if c == '%':
            r = r + '%'
            continue
        if key is not None:
            v = arg[key]
        else:
            if k >= len(args):
                raise TypeError('not enough arguments for format string')
            v = args[k]
            k += 1
        if not is_sym(v) and type(v) in (int, float, str, bytes, bool, type(None)):
            r = r + ('%' + f + c) % (v,)
        elif f:
            m2 = HEX_FLAGS.fullmatch(f)
            if c in 'xX' and type(v) is SymInt and m2 and not V.engine().branch(v.e < 0):
                r = r + V.hex_text(v.e, c == 'X', max(int(m2.group(1) or 0), int(m2.group(2) or 0)))
            elif type(v) is SymInt:
                r = r + ('%' + f + c) % (v.__index__(),)
            else:
                raise Unsupported('%% formatting with flags %r' % f)
        elif c in 'di':
            if isinstance(v, (int, float)):
                r = r + to_text(py_int(v))
            else:
                raise TypeError('%d format: a real number is required')
        elif c in 'xX' and type(v) is SymInt:
            r = r + V.hex_text(v.e, c == 'X', 0)
        elif c == 's':
            r = r + to_text(v)
        elif c in 'ra':
            r = r + to_repr(v)
        else:
            raise Unsupported('%%%s of a symbolic value' % c)
    else:
        pass
    if type(arg) is tuple and k < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return r


# ---------------------------------------------------------------------------------------------------------------
# builtins


def py_len(x):
    if issubclass(type(x), Seq):
        return x.sym_len()
    if type(x) is SymChoice:
        n = z3.IntVal(len(x.alts[-1][1]))
        for c, s in reversed(x.alts[:-1]):
            n = z3.If(c, z3.IntVal(len(s)), n)
        return mkint(n)
    return len(x)


def py_int(x=0, *a, **k):
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x._int()
    if issubclass(t, SymFloat):
        return x.to_int()
    if t is SymStr:
        b = a[0] if a else k.get('base', 10)
        return x.to_int(b if type(b) is int else b.__index__())
    if t is SymChoice:
        return int(x.realize(), *a, **k)
    if t is SymEnum:
        return x.value
    if t in (SymBytes, SymByteArray):
        return py_int(x.decode('ascii'), *a, **k)
    return int(x, *a, **k)


def py_float(x=0.0):
    t = type(x)
    if t in (SymInt, SymBool) or issubclass(t, SymFloat):
        return V.to_float(x)
    if t is SymStr:
        return x.to_float()
    if t is SymChoice:
        return float(x.realize())
    return float(x)


def py_str(x='', *a, **k):
    if a or k:
        if is_sym(x):
            return x.decode(*a, **k)
        return str(x, *a, **k)
    return to_text(x)


def py_bytes(*a, **k):
    if not a:
        return bytes(*a, **k)
    x = a[0]
    t = type(x)
    if t in (SymStr, SymChoice):
        if len(a) == 1 and not k:
            raise TypeError('string argument without an encoding')
        return x.encode(*a[1:], **k)
    if t in (SymBytes, SymByteArray):
        return SymBytes.make(x.cells)
    if t in (SymInt, SymBool):
        e = V.term(x)
        if engine().branch(V.z(e) < 0):
            raise ValueError('negative count')
        return SymBytes([Blob(Base('zeros', 'zeros', e), 0, e, 'b')])
    if t is str or t is int or t in (bytes, bytearray, memoryview):
        return bytes(*a, **k)
    items = list(x)
    if not deep_sym(items):
        return bytes(items)
    return SymBytes.make([byte_of(i) for i in items])


def byte_of(i):
    e = V.term(i)
    if type(e) is int:
        if not 0 <= e <= 255:
            raise ValueError('bytes must be in range(0, 256)')
        return e
    if not engine().branch(z3.And(e >= 0, e <= 255)):
        raise ValueError('bytes must be in range(0, 256)')
    return e


def py_bytearray(*a, **k):
    if not a:
        return SymByteArray([])
    b = py_bytes(*a, **k)
    return SymByteArray(SymBytes.lift(b))


def py_bool(x=False):
    t = type(x)
    if t is SymBool:
        return x
    if t is SymInt or issubclass(t, SymFloat):
        return mkbool(x.e != 0)
    if issubclass(t, Seq):
        n = x.zlen()
        return (n > 0) if type(n) is int else mkbool(n > 0)
    return bool(x)


def py_set(it=()):
    return SymSet(it)


def py_frozenset(it=()):
    if type(it) is SymSet and it.frozen:
        return it
    return SymSet(it, frozen=True)


def py_type(*a):
    if len(a) == 1:
        return a[0].__class__ if is_sym(a[0]) else (dict if type(a[0]) is SxDict else type(a[0]))
    return type(*a)


def py_ord(c):
    if is_sym(c):
        if type(c) is SymChoice:
            return ord(c.realize())
        n = c.zlen()
        if type(n) is not int:
            n = engine().realize_int(n)
        if n != 1:
            raise TypeError('ord() expected a character')
        cell = c.drop_empty()[0]
        return mkint(V.unit_expr(cell))
    return ord(c)


def py_chr(i):
    if type(i) in (SymInt, SymBool):
        e = V.term(i)
        if not engine().branch(z3.And(e >= 0, e <= 0x10ffff)):
            raise ValueError('chr() arg not in range(0x110000)')
        if V.Char.table.get(e.get_id()) is None:
            return chr(i.__index__())
        return SymStr.make([e])
    return chr(i)


def py_hex(i):
    if type(i) is SymInt:
        if engine().branch(i.e < 0):
            return hex(i.__index__())
        return '0x' + V.hex_text(i.e, False, 0)
    return hex(i)


PRINTED = None          # where printed lines go (a list), if anywhere


def py_print(*a, **k):
    if PRINTED is not None and k.get('file') is None:
        line, sep = '', k.get('sep', ' ')
        for i, x in enumerate(a):
            line = line + (sep if i else '') + call(str, x)
        PRINTED.append(line + k.get('end', '\n'))
    return None


def py_map(f, *its):
    return (call(f, *xs) for xs in zip(*its))


def py_filter(f, it):
    if f is None:
        return (x for x in it if x)
    return (x for x in it if call(f, x))


def py_sorted(it, key=None, reverse=False):
    it = list(it)
    if key is None:
        return sorted(it, reverse=reverse)
    return sorted(it, key=lambda x: call(key, x), reverse=reverse)


def py_minmax(which):
    def f(*a, key=None, **k):
        if key is not None:
            k['key'] = lambda x: call(key, x)
        if len(a) == 1:
            a = (list(a[0]),)
        items = a[0] if len(a) == 1 else a
        if key is None and items and all(type(x) in (int, SymInt) for x in items) and any(type(x) is SymInt for x in items):
            r = V.z(V.term(items[0]))
            for x in items[1:]:
                e = V.z(V.term(x))
                r = z3.If(e < r, e, r) if which is min else z3.If(e > r, e, r)
            return mkint(r)
        return which(*a, **k)
    return f


def py_reduce(f, it, *init):
    return functools.reduce(lambda x, y: call(f, x, y), it, *init)


def py_attr(fn):
    def f(obj, name, *a):
        if type(name) in (SymStr, SymChoice):
            name = name.realize()
        return fn(obj, name, *a)
    return f


def py_getattr(obj, name, *a):
    if type(name) in (SymStr, SymChoice):
        name = name.realize()
    return getattr(obj, name, *a)


def py_format(v, spec=''):
    return fmt(v, spec)


def py_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


def py_dict(*a, **k):
    return SxDict(*a, **k)


def py_isinstance(x, c):
    return isinstance(x, c)


def py_open(path, *a, **k):
    if VFS is None:
        raise Unsupported('open() without a file system model')
    return VFS.open(path, *a, **k)


VFS = None


# ---------------------------------------------------------------------------------------------------------------
# struct

INTFMT = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False), 'l': (4, True),
          'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def parse_fmt(f):
    """'<' format (native or symbolic text) -> list of (count or None, code); counts may be symbolic terms"""
    if type(f) in (bytes,):
        f = f.decode()
    if type(f) is SymChoice:
        f = f.realize()
    if type(f) is SymBytes:
        f = f.decode('ascii')
    cells = [ord(c) for c in f] if type(f) is str else f.drop_empty()
    order = '@'
    out = []
    i = 0
    if cells and type(cells[0]) is int and chr(cells[0]) in '<>=!@':
        order = chr(cells[0])
        i = 1
    count = None
    while i < len(cells):
        c = cells[i]
        i += 1
        if type(c) is Blob:
            if c.base.kind == 'dec' and c.full() and count is None:
                count = c.base.payload
                if not engine().branch(V.z(count) >= 0):
                    raise _struct.error('bad char in struct format')
                continue
            raise Unsupported('struct format')
        if type(c) is not int:
            c = engine().realize_int(c)
        ch = chr(c)
        if ch.isspace():
            continue
        if ch.isdigit():
            if count is not None and type(count) is not int:
                raise Unsupported('struct format')
            count = (count or 0) * 10 + int(ch)
            continue
        if ch not in INTFMT and ch not in 'xcsp?fd':
            raise _struct.error('bad char in struct format')
        out.append((count, ch))
        count = None
    if order == '@':
        if len(out) > 1 and any(ch not in 'scxbB?' for _, ch in out):
            raise Unsupported('native alignment in struct format')
        order = '<'
    if order == '=':
        order = '<'
    if order == '!':
        order = '>'
    return order, out


def fmt_size(items):
    n = 0
    for cnt, ch in items:
        k = 1 if cnt is None else cnt
        w = INTFMT[ch][0] if ch in INTFMT else {'f': 4, 'd': 8}.get(ch, 1)
        n = V.zadd(n, V.norm(V.z(k) * w) if type(k) is not int else k * w)
    return n


def struct_pack(f, *args):
    order, items = parse_fmt(f)
    out = []
    args = list(args)

    def take():
        if not args:
            raise _struct.error('pack expected more items')
        return args.pop(0)

    for cnt, ch in items:
        if ch in 'sp':
            if ch == 'p':
                raise Unsupported('struct p')
            k = 1 if cnt is None else cnt
            v = take()
            cells = SymBytes.lift(v)
            if cells is None:
                raise _struct.error("argument for 's' must be a bytes object")
            n = Seq._total(cells)
            if V.same_term(n, k) or V.decide_eq(n, k):
                out += cells
            elif V.decide_le(k, n):
                left, _ = SymBytes(cells).split_at(cells, k)
                out += left
            else:
                pad = V.zsub(k, n)
                out += cells
                if type(pad) is int:
                    out += [0] * pad
                else:
                    out.append(Blob(Base('zeros', 'pad', pad), 0, pad, 'b'))
            continue
        if cnt is not None and type(cnt) is not int:
            cnt = engine().realize_int(V.z(cnt))
        for _ in range(1 if cnt is None else cnt):
            if ch == 'x':
                out.append(0)
                continue
            v = take()
            if ch in INTFMT:
                w, signed = INTFMT[ch]
                if type(v) is SymEnum and issubclass(v.cls, int):
                    v = v.value
                if type(v) is SymBool:
                    v = v._int()
                if type(v) is SymInt:
                    lo, hi = (-(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1) if signed else (0, (1 << (8 * w)) - 1)
                    if not engine().branch(z3.And(v.e >= lo, v.e <= hi)):
                        raise _struct.error('argument out of range')
                    cells = list(SymBytes.lift(v.to_bytes(w, 'little', signed=signed)))
                    if order == '>':
                        cells.reverse()
                    out += cells
                elif is_sym(v):
                    raise _struct.error('required argument is not an integer')
                else:
                    out += list(_struct.pack(order + ch, v))
            elif ch == '?':
                b = v if type(v) is bool else bool(v)
                out.append(1 if b else 0)
            elif ch == 'c':
                cells = SymBytes.lift(v)
                if cells is None or len(cells) != 1 or type(cells[0]) is Blob:
                    raise _struct.error('char format requires a bytes object of length 1')
                out += cells
            elif ch == 'd':
                if type(v) is SymInt:
                    v = V.to_float(v)
                if issubclass(type(v), SymFloat):
                    if type(v) is V.DecFloat:
                        cells = [V.FloatCell(v, i) for i in range(8)]
                    else:
                        cells = [V.FloatCell(v, i) for i in range(8)]
                    if order == '>':
                        cells.reverse()
                    out += cells
                elif is_sym(v):
                    raise _struct.error('required argument is not a float')
                else:
                    out += list(_struct.pack(order + ch, v))
            elif ch == 'f':
                if type(v) is SymInt:
                    v = V.to_float(v)
                if issubclass(type(v), SymFloat):
                    # single precision rounds: follow one value that it cannot represent
                    if engine().branch(v.e == 16777217):
                        out += list(_struct.pack(order + 'f', 16777217.0))
                    else:
                        raise Unsupported('single precision float')
                elif is_sym(v):
                    raise _struct.error('required argument is not a float')
                else:
                    out += list(_struct.pack(order + ch, v))
    if args:
        raise _struct.error('pack expected fewer items')
    return SymBytes.make(out)


def unpack_int(cells, w, signed, order):
    if order == '>':
        cells = list(reversed(cells))
    c0 = cells[0]
    if type(c0) is V.ByteCell and c0.n == w and (c0.lo < 0) == signed and all(
            type(c) is V.ByteCell and c.i == i and c.x.eq(c0.x) and c.n == w for i, c in enumerate(cells)):
        return mkint(c0.x)
    if all(type(c) is int for c in cells):
        return int.from_bytes(bytes(cells), 'little', signed=signed)
    e = 0
    for i, c in enumerate(cells):
        e = e + V.unit_expr(c) * (1 << (8 * i))
    e = core.simp(e)
    if signed:
        e = z3.If(e >= (1 << (8 * w - 1)), e - (1 << (8 * w)), e)
    return mkint(e)


def struct_unpack(f, data):
    order, items = parse_fmt(f)
    cells = SymBytes.lift(data)
    if cells is None:
        raise TypeError('a bytes-like object is required')
    size = fmt_size(items)
    total = Seq._total(cells)
    if not V.same_term(size, total) and not V.decide_eq(size, total):
        raise _struct.error('unpack requires a buffer of other size')
    out = []
    rest = cells

    def take(n):
        nonlocal rest
        left, rest = SymBytes(rest).split_at(rest, n)
        return left

    for cnt, ch in items:
        if ch == 's':
            out.append(SymBytes.make(take(1 if cnt is None else cnt)))
            continue
        if ch == 'p':
            raise Unsupported('struct p')
        if cnt is not None and type(cnt) is not int:
            cnt = engine().realize_int(V.z(cnt))
        for _ in range(1 if cnt is None else cnt):
            w = INTFMT[ch][0] if ch in INTFMT else {'f': 4, 'd': 8}.get(ch, 1)
            cs = take_units(take(w), w)
            if ch in INTFMT:
                out.append(unpack_int(cs, w, INTFMT[ch][1], order))
            elif ch == 'x':
                pass
            elif ch == 'c':
                out.append(SymBytes.make(cs))
            elif ch == '?':
                out.append(mkbool(V.z(V.unit_expr(cs[0])) != 0) if type(cs[0]) is not int else bool(cs[0]))
            elif all(type(c) is int for c in cs):
                out.append(_struct.unpack(order + ch, bytes(cs))[0])
            elif ch == 'd' and type(cs[0]) is V.FloatCell:
                ordered = list(reversed(cs)) if order == '>' else cs
                c0 = ordered[0]
                if all(type(c) is V.FloatCell and c.i == i and c.x is c0.x for i, c in enumerate(ordered)):
                    out.append(c0.x)
                else:
                    raise Unsupported('bytes of different floats')
            else:
                raise Unsupported('float from symbolic bytes')
    return tuple(out)


def take_units(cells, w):
    out = []
    for c in cells:
        if type(c) is Blob:
            if V.decide_eq(c.length(), 0):
                continue
            if c.base.kind == 'zeros':
                out += [0] * engine().realize_int(V.z(c.length()))
                continue
            raise Unsupported('number read from an opaque string')
        out.append(c)
    if len(out) != w:
        raise Unsupported('number read from an opaque string')
    return out


def struct_calcsize(f):
    return mkint(fmt_size(parse_fmt(f)[1]))


def struct_unpack_from(f, buffer, offset=0):
    size = mkint(fmt_size(parse_fmt(f)[1]))
    if py_len(buffer) < offset + size:
        raise _struct.error('unpack_from requires a larger buffer')
    return struct_unpack(f, buffer[offset:offset + size])


# ---------------------------------------------------------------------------------------------------------------
# base64, int.from_bytes, time, os.path


def b64encode(s, altchars=None):
    if is_sym(s) and altchars is None:
        cells = SymBytes.lift(s)
        if cells is None:
            raise TypeError('a bytes-like object is required')
        n = Seq._total(cells)
        if type(n) is int and n == 0:
            return b''
        if all(type(c) is int for c in cells):
            return _base64.b64encode(bytes(cells))
        m = V.norm(((V.z(n) + 2) / 3) * 4)
        return SymBytes([Blob(Base('b64', 'b64', m, payload=cells), 0, m, 'b')])
    return _base64.b64encode(bytes(s) if type(s) is bytearray else s, altchars)


def b64decode(s, altchars=None, validate=False):
    if is_sym(s) and altchars is None:
        cells = s.drop_empty() if issubclass(type(s), Seq) else None
        if type(s) is SymChoice:
            return _base64.b64decode(s.realize())
        if cells is None:
            raise Unsupported('b64decode')
        if len(cells) == 1 and type(cells[0]) is Blob and cells[0].base.kind == 'b64' and cells[0].full():
            return SymBytes.make(cells[0].base.payload)
        if all(type(c) is int for c in cells):
            return _base64.b64decode(bytes(cells) if not isinstance(s, str) else ''.join(map(chr, cells)))
        raise Unsupported('b64decode of arbitrary text')
    return _base64.b64decode(s, altchars, validate)


def urlsafe_b64encode(s):
    r = b64encode(s)
    if is_sym(r):
        b = r.drop_empty()[0]
        return SymBytes([Blob(Base('b64u', 'b64u', b.base.n, payload=b.base.payload), 0, b.base.n, 'b')])
    return _base64.urlsafe_b64encode(bytes(s) if type(s) is bytearray else s)


def urlsafe_b64decode(s):
    if is_sym(s):
        cells = s.drop_empty() if issubclass(type(s), Seq) else None
        # the urlsafe decoder takes both alphabets
        if cells and len(cells) == 1 and type(cells[0]) is Blob and cells[0].base.kind in ('b64', 'b64u') and cells[0].full():
            return SymBytes.make(cells[0].base.payload)
        if cells is not None and all(type(c) is int for c in cells):
            return _base64.urlsafe_b64decode(bytes(cells) if not isinstance(s, str) else ''.join(map(chr, cells)))
        raise Unsupported('urlsafe_b64decode of arbitrary text')
    return _base64.urlsafe_b64decode(s)


def int_from_bytes(b, byteorder='big', *, signed=False):
    if is_sym(b):
        cells = take_units(b.cells, engine().realize_int(V.z(b.zlen())))
        return unpack_int(cells, len(cells), signed, '<' if byteorder == 'little' else '>')
    return int.from_bytes(b, byteorder, signed=signed)


CLOCK = None          # set by the harness: object with time(), gmtime(t), strftime(fmt, st)


def clock(name):
    def f(*a):
        if CLOCK is None:
            if deep_sym(a):
                raise Unsupported('time.%s of a symbolic value' % name)
            return getattr(_time, name)(*a)
        return getattr(CLOCK, name)(*a)
    return f


def ospath(fn):
    def f(*a):
        if deep_sym(a):
            if fn is _os.path.join:
                r = a[0]
                for p in a[1:]:
                    if bool(p.startswith('/')):
                        r = p
                    elif not r or bool(r.endswith('/')):
                        r = r + p
                    else:
                        r = r + '/' + p
                return r
            raise Unsupported('os.path function of a symbolic value')
        return fn(*a)
    return f


def os_getsize(p):
    if VFS is not None:
        return VFS.getsize(p)
    return _os.path.getsize(p)


def os_exists(p):
    if VFS is not None:
        return VFS.exists(p)
    return _os.path.exists(p)


# ---------------------------------------------------------------------------------------------------------------
# dispatch

H = {}


def handle(f, h):
    H[id(f)] = (f, h)


for _f, _h in ((len, py_len), (int, py_int), (float, py_float), (str, py_str), (bytes, py_bytes), (bytearray, py_bytearray),
               (bool, py_bool), (set, py_set), (frozenset, py_frozenset), (dict, py_dict), (type, py_type), (ord, py_ord),
               (chr, py_chr), (hex, py_hex), (print, py_print), (map, py_map), (filter, py_filter), (sorted, py_sorted),
               (min, py_minmax(min)), (max, py_minmax(max)), (functools.reduce, py_reduce), (getattr, py_getattr),
               (hasattr, py_attr(hasattr)), (setattr, py_attr(setattr)), (delattr, py_attr(delattr)), (format, py_format),
               (sum, py_sum), (repr, to_repr), (ascii, to_repr), (open, py_open),
               (_struct.pack, struct_pack), (_struct.unpack, struct_unpack), (_struct.calcsize, struct_calcsize),
               (_struct.unpack_from, struct_unpack_from),
               (_base64.b64encode, b64encode), (_base64.b64decode, b64decode),
               (_base64.standard_b64encode, b64encode), (_base64.standard_b64decode, b64decode),
               (_base64.urlsafe_b64encode, urlsafe_b64encode), (_base64.urlsafe_b64decode, urlsafe_b64decode),
               (_base64.encodebytes, None), (_base64.decodebytes, None),
               (int.from_bytes, int_from_bytes),
               (_time.time, clock('time')), (_time.gmtime, clock('gmtime')), (_time.strftime, clock('strftime')),
               (_time.localtime, clock('localtime')), (_time.time_ns, clock('time_ns')),
               (_os.path.join, ospath(_os.path.join)), (_os.path.abspath, ospath(_os.path.abspath)),
               (_os.path.dirname, ospath(_os.path.dirname)), (_os.path.basename, ospath(_os.path.basename)),
               (_os.path.getsize, os_getsize), (_os.path.exists, os_exists), (_os.path.isfile, os_exists)):
    if _h is not None:
        handle(_f, _h)

PASS = {id(x): x for x in (isinstance, issubclass, callable, id, iter, next, any, all, divmod, pow, abs, round)}
import collections as _collections
import itertools as _itertools
import operator as _operator


def _partial(f, *a, **k):
    if not (deep_sym(a) or deep_sym(k)) and getattr(f, '__module__', None) not in ('builtins', None):
        return functools.partial(f, *a, **k)
    return lambda *b, **j: call(f, *(a + b), **dict(k, **j))


def _takewhile(p, xs):
    for x in xs:
        if not bool(call(p, x)):
            return
        yield x


def _dropwhile(p, xs):
    on = False
    for x in xs:
        if not on and bool(call(p, x)):
            continue
        on = True
        yield x


def _filterfalse(p, xs):
    for x in xs:
        if not bool(call(p, x) if p is not None else x):
            yield x


def _starmap(f, xs):
    for x in xs:
        yield call(f, *x)


def _accumulate(xs, func=None, *, initial=None):
    total = initial
    for i, x in enumerate(xs):
        if i == 0 and initial is None:
            total = x
        else:
            if i == 0:
                yield total
            total = total + x if func is None else call(func, total, x)
        yield total


handle(functools.partial, _partial)
handle(_itertools.takewhile, _takewhile)
handle(_itertools.dropwhile, _dropwhile)
handle(_itertools.filterfalse, _filterfalse)
handle(_itertools.starmap, _starmap)
handle(_itertools.accumulate, _accumulate)
handle(_collections.OrderedDict, py_dict)
ITERS = (_itertools.chain, _itertools.islice, _itertools.zip_longest, _itertools.count, _itertools.repeat, _itertools.cycle, _itertools.product,
         _itertools.combinations, _itertools.permutations, _itertools.tee, _itertools.pairwise, _collections.deque)
PASS.update({id(x): x for x in (_operator.lt, _operator.le, _operator.gt, _operator.ge, _operator.eq, _operator.ne, _operator.add, _operator.sub,
                                _operator.mul, _operator.and_, _operator.or_, _operator.xor, _operator.neg, _operator.getitem)})
handle(_operator.contains, lambda c, x: contains(x, c))
handle(_operator.is_, lambda a, b: is_(a, b))
handle(_operator.is_not, lambda a, b: Not(is_(a, b)))
handle(_operator.not_, lambda a: Not(_truth(a)))
handle(_operator.mod, lambda a, b: mod(a, b))
PASS_TYPES = {id(x): x for x in (list, tuple, enumerate, zip, reversed, range, object, slice, property, staticmethod,
                                 classmethod, super, Exception)}

PASS_TYPES.update({id(x): x for x in ITERS})
PASS[id(_itertools.tee)] = _itertools.tee

_BUILTIN = types.BuiltinFunctionType
_METHDESC = type(str.lower)
_WRAPDESC = type(int.__add__)
_METHWRAP = type((1).__add__)


def call(f, *a, **k):
    t = type(f)
    if t is types.FunctionType or t is types.MethodType:
        h = H.get(id(f if t is types.FunctionType else f.__func__))
        if h is not None and t is types.FunctionType:
            return h[1](*a, **k)
        fn = f if t is types.FunctionType else f.__func__
        g = getattr(fn, '__globals__', None)
        if g is not None and '__sx__' not in g and (deep_sym(a) or deep_sym(k)) and not known_python(fn):
            raise Unsupported('library function %s on a symbolic value' % getattr(fn, '__qualname__', fn))
        return f(*a, **k)
    if t is _BUILTIN:
        s = f.__self__
        if s is None or type(s) is types.ModuleType or isinstance(s, type):
            h = H.get(id(f))
            if h is not None:
                return h[1](*a, **k)
            if isinstance(s, type):
                return type_method(f, s, a, k)
            if id(f) in PASS or not (deep_sym(a) or deep_sym(k)):
                return f(*a, **k)
            raise Unsupported('builtin %s on a symbolic value' % f.__name__)
        return bound_builtin(f, s, a, k)
    if t is type:
        h = H.get(id(f))
        if h is not None:
            return h[1](*a, **k)
        m = f.__module__
        if id(f) in PASS_TYPES or not (deep_sym(a) or deep_sym(k)):
            return f(*a, **k)
        if issubclass(f, BaseException) or '__sx__' in getattr(_sysmod(m), '__dict__', ()) or known_module(m):
            return f(*a, **k)
        raise Unsupported('library class %s on a symbolic value' % f.__name__)
    if issubclass(t, enum.EnumMeta):
        if len(a) == 1 and is_sym(a[0]) and not k:
            return enum_call(f, a[0])
        return f(*a, **k)
    if t in (_METHDESC, _WRAPDESC):
        if a and (is_sym(a[0]) or type(a[0]) is SxDict):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        if a and deep_sym(a[1:]):
            return call(getattr(a[0], f.__name__), *a[1:], **k)
        return f(*a, **k)
    return f(*a, **k)


import sys as _sys


def _sysmod(m):
    return _sys.modules.get(m)


def known_module(m):
    return m is not None and (m.split('.')[0] in ('symex', 'models', 'checks') or getattr(_sysmod(m), '__sx_model__', False))


STD_OK = ('functools', 'itertools', 'collections', 'contextlib', 'enum', 'abc', 'types', 'typing', 'operator', 'dataclasses', 'copy')


def known_python(fn):
    m = getattr(fn, '__module__', None)
    if m is None:
        return True
    return known_module(m) or m.split('.')[0] in STD_OK


def enum_call(cls, x):
    if type(x) is SymEnum:
        if x.cls is cls:
            return x
        x = x.value if issubclass(x.cls, int) else x
    if isinstance(x, int) and all(isinstance(m.value, int) for m in cls):
        e = V.z(V.term(x))
        ms = list(cls)
        if engine().branch(z3.Or(*[e == m.value for m in ms])):
            s = core.simp(e)
            return cls(s.as_long()) if z3.is_int_value(s) else SymEnum(cls, e)
        raise ValueError('not a valid %s' % cls.__name__)
    for m in cls:
        if bool(m.value == x):
            return m
    raise ValueError('not a valid %s' % cls.__name__)


def type_method(f, cls, a, k):
    """class/static methods implemented in C (int.from_bytes, bytes.fromhex, dict.fromkeys, str.maketrans, ...)"""
    if cls.__module__ == 'datetime' and (CLOCK is not None or deep_sym(a)):
        raise Unsupported('datetime.%s' % f.__name__)
    if f.__name__ == 'from_bytes' and cls is int:
        return int_from_bytes(*a, **k)
    if cls is _itertools.chain:
        return f(*a, **k)
    if f.__name__ == 'fromkeys' and issubclass(cls, dict):
        return SxDict([(x, a[1] if len(a) > 1 else None) for x in a[0]])
    if deep_sym(a) or deep_sym(k):
        if f.__name__ in ('__new__', '__init__', '__setattr__'):
            return f(*a, **k)
        if f.__name__ == 'fromhex' and a and is_sym(a[0]):
            return f(a[0].realize())
        raise Unsupported('%s.%s on a symbolic value' % (cls.__name__, f.__name__))
    return f(*a, **k)


def bound_builtin(f, s, a, k):
    t = type(s)
    name = f.__name__
    if t is str or t is bytes or t is bytearray:
        if name == 'join':
            parts = list(a[0])
            if deep_sym(parts):
                return lift_seq(s).join(parts)
            return f(parts)
        if name == 'format' and t is str:
            if deep_sym(a) or deep_sym(k) or any(not isinstance(x, (str, int, float, bytes, type(None), bool)) for x in a) or \
                    any(not isinstance(x, (str, int, float, bytes, type(None), bool)) for x in k.values()):
                return str_format(s, a, k)
            return f(*a, **k)
        if name == 'format_map' and t is str:
            return str_format(s, (), a[0])
        if deep_sym(a) or deep_sym(k):
            return getattr(lift_seq(s), name)(*a, **k)
        return f(*a, **k)
    if t is SxDict or t is SymSet:
        return f(*a, **k)
    if t is dict or t is types.MappingProxyType:
        if a and deep_sym(a[0]) and name in ('get', 'pop', 'setdefault', '__getitem__', '__contains__'):
            V.check_hashable(a[0])
            for key in list(s):
                if bool(V.same_key(a[0], key)):
                    return f(key, *a[1:], **k)
            if name == 'get':
                return a[1] if len(a) > 1 else None
            if name == 'pop' and len(a) > 1:
                return a[1]
            if name == '__contains__':
                return False
            if name == 'setdefault':
                raise Unsupported('symbolic key in a native dict')
            raise KeyError('symbolic')
        return f(*a, **k)
    if t in (list, tuple):
        if name == 'sort' and k.get('key') is not None:
            key = k['key']
            k = dict(k, key=lambda x: call(key, x))
        return f(*a, **k)
    if t in (set, frozenset) and (deep_sym(a)):
        if name in ('issubset', 'issuperset', 'isdisjoint', 'union', 'intersection', 'difference', 'symmetric_difference',
                    '__eq__', '__le__', '__ge__', '__contains__'):
            return getattr(SymSet(s), name)(*a)
        raise Unsupported('set.%s with a symbolic value' % name)
    if t is _struct.Struct:
        if name == 'pack':
            return struct_pack(s.format, *a)
        if name == 'unpack':
            return struct_unpack(s.format, *a)
        if name == 'unpack_from':
            return struct_unpack_from(s.format, *a, **k)
        return f(*a, **k)
    if deep_sym(a) or deep_sym(k):
        m = getattr(t, '__module__', '')
        if m in ('collections', 'itertools', '_io') or known_module(m) or '__sx__' in getattr(_sysmod(m), '__dict__', ()):
            return f(*a, **k)
        if name in ('__eq__', '__ne__', '__lt__', '__le__', '__gt__', '__ge__', '__init__', '__setattr__', '__new__'):
            r = f(*a, **k)
            if r is NotImplemented and t in (int, float, bool):
                return r
            return r
        if t is int and name == 'to_bytes':
            return f(*[x if type(x) in (int, str) else x.__index__() for x in a], **k)
        raise Unsupported('%s.%s on a symbolic value' % (t.__name__, name))
    return f(*a, **k)


def lift_seq(s):
    if type(s) is str:
        return SymStr(SymStr.lift(s))
    if type(s) is bytearray:
        return SymByteArray(list(s))
    return SymBytes(SymBytes.lift(s))
