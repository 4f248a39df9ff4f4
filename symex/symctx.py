"""Symbolic context: inputs are solver variables; models are turned back into concrete inputs for replay."""
import builtins
import importlib
import os
import sys
from fractions import Fraction
import z3

from . import values as V
from . import calls
from . import loader
from . import textgen
from .core import engine, Unsupported
from .values import (SymBool, SymInt, SymFloat, SymStr, SymBytes, SymByteArray, SymChoice, SymEnum, SymSet, Blob, Base, mkint,
                     is_sym)
from .conctx import jsonable

DOMAINS = {'latin': V.LATIN, 'ascii': V.ASCII, 'byte': V.Domain(list(range(256)))}
MAINS = {}         # modules compiled as programs
KEEP = {}          # keeps variables alive (and their identity stable) across paths


def var(name):
    v = KEEP.get(name)
    if v is None:
        v = KEEP[name] = z3.Int(name)
    return v


EQS = {}
NOF = z3.Function('length_of_content', z3.IntSort(), z3.IntSort())         # equal contents have equal lengths
NBOF = z3.Function('size_of_content', z3.IntSort(), z3.IntSort())


def rng(e, name, lo, hi):
    k = (name, lo, hi, 'rng')
    r = EQS.get(k)
    if r is None:
        r = EQS[k] = z3.And(e >= lo, e <= hi)
    return r


class SymCtx(object):
    sym = True

    def __init__(self):
        self.vars = []          # (name, kind, data)
        self.obs = []
        self.checks = 0
        self.env = {}

    def fresh(self, base):
        return engine().fresh_name(base)

    def imp(self, name):
        return importlib.import_module(name)

    def main(self, name, args):
        """runs the module as a program -> what it printed"""
        path = os.path.join(loader.FINDER.roots[name.split('.')[0]], *name.split('.')) + '.py'
        if name not in MAINS:
            MAINS[name] = loader.compile_source(path, name, True)
        argv, sys.argv, calls.PRINTED = sys.argv, [path] + list(args), []
        try:
            exec(MAINS[name], {'__name__': '__main__', '__file__': path, '__sx__': calls, '__builtins__': builtins})
            out = ''
            for line in calls.PRINTED:
                out = out + line
            return out
        finally:
            sys.argv, calls.PRINTED = argv, None

    def int(self, name, lo=None, hi=None):
        name = self.fresh(name)
        e = var(name)
        if lo is not None:
            engine().assume(e >= lo if not is_sym(lo) else e >= lo.e)
        if hi is not None:
            engine().assume(e <= hi if not is_sym(hi) else e <= hi.e)
        self.vars.append((name, 'int', e))
        return SymInt(e)

    def float(self, name, lo, hi, den=4):
        """k/den with den a power of two: every value is a double, comparisons are exact."""
        name = self.fresh(name)
        k = var(name)
        engine().assume(z3.And(k >= int(lo * den), k <= int(hi * den)))
        self.vars.append((name, 'float', (k, den)))
        return SymFloat(z3.ToReal(k) / den)

    def bool(self, name):
        name = self.fresh(name)
        e = var(name)
        engine().assume(rng(e, name, 0, 1))
        self.vars.append((name, 'bool', e))
        return SymBool(e == 1)

    def chars(self, name, n, domain='latin'):
        name = self.fresh(name)
        cells = []
        for i in range(n):
            e = var('%s[%d]' % (name, i))
            d = DOMAINS[domain] if isinstance(domain, str) and domain in DOMAINS else V.Domain([ord(c) for c in domain])
            k = (name, i, domain if isinstance(domain, str) else tuple(domain))
            if k not in EQS:
                EQS[k] = d.member(e)
            engine().assume(EQS[k])
            V.note_domain(e, d)
            cells.append(e)
        self.vars.append((name, 'chars', cells))
        return SymStr.make(cells)

    def str(self, name, maxlen, domain='latin', minlen=0):
        n = self.int(name + '.len', minlen, maxlen)
        return self.chars(name, engine().realize_int(n.e), domain)

    def text(self, name, max_nb=70000, min_n=0, max_n=None, plain=True):
        name = self.fresh(name)
        n, nb, cid = var(name + '.n'), var(name + '.nb'), var(name + '.cid')
        eng = engine()
        eng.assume(z3.And(n >= min_n, nb >= n, nb <= 4 * n, nb <= max_nb, (cid == 0) == (n == 0),
                          NOF(cid) == n, NBOF(cid) == nb))
        if max_n is not None:
            eng.assume(n <= max_n)
        b = Base('text', name, n, nb=nb, cid=cid, plain=plain)
        self.vars.append((name, 'text', b))
        return SymStr([Blob(b, 0, n, 't')])

    def data(self, name, max_n=70000, min_n=0):
        name = self.fresh(name)
        n, cid = var(name + '.n'), var(name + '.cid')
        engine().assume(z3.And(n >= min_n, n <= max_n, (cid == 0) == (n == 0), NBOF(cid) == n))
        b = Base('bytes', name, n, cid=cid, plain=False)
        self.vars.append((name, 'data', b))
        return SymBytes([Blob(b, 0, n, 'b')])

    def pick(self, name, options):
        name = self.fresh(name)
        e = var(name)
        engine().assume(rng(e, name, 0, len(options) - 1))
        self.vars.append((name, 'int', e))
        return options[engine().realize_int(e, cap=len(options) + 1)]

    def choice(self, name, strings):
        name = self.fresh(name)
        e = var(name)
        engine().assume(rng(e, name, 0, len(strings) - 1))
        self.vars.append((name, 'choice', (e, list(strings))))
        k = (name, len(strings))
        eqs = EQS.get(k)
        if eqs is None:
            eqs = EQS[k] = [e == i for i in range(len(strings))]
        return SymChoice(list(zip(eqs, strings)))

    def enum(self, name, cls, members=None):
        name = self.fresh(name)
        e = var(name)
        ms = members or list(cls)
        k = (name, tuple(m.value for m in ms))
        if k not in EQS:
            EQS[k] = z3.Or(*[e == m.value for m in ms])
        engine().assume(EQS[k])
        self.vars.append((name, 'int', e))
        return SymEnum(cls, e, ms)

    def assume(self, cond):
        engine().assume(V.zbool(cond))

    def check(self, cond, label):
        self.checks += 1
        engine().check(V.zbool(cond), label)

    def observe(self, key, value):
        self.obs.append((key, value))

    def And(self, *a): return V.And(*a)
    def Or(self, *a): return V.Or(*a)
    def Not(self, a): return V.Not(a)
    def Implies(self, a, b): return V.Implies(a, b)

    def If(self, c, a, b):
        if isinstance(c, bool) and not is_sym(c):
            return a if c else b
        if type(a) in (int, SymInt) and type(b) in (int, SymInt):
            return mkint(z3.If(c.e, V.z(V.term(a)), V.z(V.term(b))))
        return a if bool(c) else b

    def same(self, a, b):
        ta, tb = calls.py_type(a), calls.py_type(b)
        if ta is not tb:
            return False
        if ta in (list, tuple):
            if len(a) != len(b):
                return False
            return V.And(*[self.same(x, y) for x, y in zip(a, b)])
        if ta in (set, frozenset):
            if len(a) != len(b):
                return False
            return V.And(*[V.Or(*[self.same(x, y) for y in b]) for x in a])
        r = a == b
        return r if type(r) in (bool, SymBool) else bool(r)

    def world(self):
        from models import sym_world
        return sym_world.world()

    # -- models -------------------------------------------------------------------------------------------------
    def concretize(self, model, variant=0):
        """-> (inputs, evaluator of symbolic values); variant: another choice of the contents that the model leaves open"""
        ev = Eval(model)
        inputs = {}
        groups = {}
        for name, kind, d in self.vars:
            if kind == 'int':
                inputs[name] = ev.int(d)
            elif kind == 'bool':
                inputs[name] = ev.int(d) == 1
            elif kind == 'float':
                inputs[name] = float(Fraction(ev.int(d[0]), d[1]))
            elif kind == 'chars':
                inputs[name] = ''.join(chr(ev.int(c)) if not isinstance(c, int) else chr(c) for c in d)
            elif kind == 'choice':
                inputs[name] = d[1][ev.int(d[0])]
            elif kind in ('text', 'data'):
                groups.setdefault(ev.int(d.cid), []).append((name, kind, d))
        ranks = {}
        back = {c: b for b, c in V.LITERALS.items()}
        for cid in sorted(groups):
            members = groups[cid]
            if cid == 0:
                content = b''
            elif cid in back:
                content = back[cid]
            else:
                texts = [d for _, k, d in members if k == 'text']
                if texts:
                    n, nb = ev.int(texts[0].n), ev.int(texts[0].nb)
                    r = ranks.get((n, nb), 0)
                    ranks[(n, nb)] = r + 1
                    content = textgen.text(n, nb, r, variant).encode('utf-8')
                else:
                    n = ev.int(members[0][2].nb)
                    r = ranks.get(n, 0)
                    ranks[n] = r + 1
                    content = textgen.data(n, r, variant)
            ev.contents[cid] = content
            for name, kind, d in members:
                inputs[name] = content.decode('utf-8') if kind == 'text' else content.hex()
        return inputs, ev

    def observed(self, ev):
        return [[k, ev.json(v)] for k, v in self.obs]


class Eval(object):
    def __init__(self, model):
        self.model = model
        self.contents = {0: b''}

    def int(self, e):
        if isinstance(e, int):
            return e
        return self.model.eval(e, model_completion=True).as_long()

    def cells(self, cells, text):
        out = '' if text else b''
        for c in cells:
            if type(c) is Blob:
                p = self.blob(c, text)
                if p is None:
                    return None
                out += p
            elif type(c) is V.FloatCell:
                import struct
                out += struct.pack('<d', self.value(c.x))[c.i:c.i + 1]
            else:
                v = self.int(V.unit_expr(c))
                out += chr(v) if text else bytes([v])
        return out

    def blob(self, c, text):
        b = c.base
        lo, hi = self.int(c.lo), self.int(c.hi)
        if lo == hi:
            return '' if text else b''
        if b.kind in ('text', 'bytes', 'key'):
            cid = self.int(b.cid)
            s = self.contents.get(cid)
            if s is None and cid < 0:
                s = {c: x for x, c in V.LITERALS.items()}.get(cid)
            if s is None:
                return None
        elif b.kind == 'dec':
            s = str(self.int(b.payload)).encode()
        elif b.kind == 'hex':
            s = (('%0*X' if b.payload[1] else '%0*x') % (b.payload[2], self.int(b.payload[0]))).encode()
        elif b.kind == 'zeros':
            s = b'\0' * (hi - lo)
            lo, hi = 0, hi - lo
        elif b.kind == 'b64':
            import base64
            p = self.cells(b.payload, False)
            if p is None:
                return None
            s = base64.b64encode(p)
        elif b.kind == 'b64u':
            import base64
            p = self.cells(b.payload, False)
            if p is None:
                return None
            s = base64.urlsafe_b64encode(p)
        elif b.kind in ('hash', 'hashhex'):
            import hashlib
            p = self.cells(b.payload[1], False)
            if p is None:
                return None
            h = hashlib.new(b.payload[0], p)
            s = h.digest() if b.kind == 'hash' else h.hexdigest().encode()
        else:
            return None
        if text:
            return s.decode('utf-8', 'replace')[lo:hi]
        return s[lo:hi]

    def value(self, v):
        """native value of v under the model; raises KeyError if it has none (opaque)"""
        t = type(v)
        if t is SymInt:
            return self.int(v.e)
        if t is SymBool:
            import z3 as _z
            return _z.is_true(self.model.eval(v.e, model_completion=True))
        if t is V.DecFloat:
            n = self.int(v.num)
            return n / v.den if v.den != 1 else float(n)
        if issubclass(t, SymFloat):
            q = self.model.eval(v.e, model_completion=True)
            return float(Fraction(q.numerator_as_long(), q.denominator_as_long()))
        if t is SymStr:
            r = self.cells(V.expand_model(v.cells, self), True)
            if r is None:
                raise KeyError('opaque')
            return r
        if t in (SymBytes, SymByteArray):
            r = self.cells(v.cells, False)
            if r is None:
                raise KeyError('opaque')
            return r
        if t is SymChoice:
            for c, s in v.alts:
                if z3.is_true(self.model.eval(c, model_completion=True)):
                    return s
            return v.alts[-1][1]
        if t is SymEnum:
            return v.cls(self.int(v.e))
        if t is SymSet:
            return set(self.value(x) for x in v.items)
        if t in (list, tuple):
            return t(self.value(x) for x in v)
        if isinstance(v, dict):
            return {self.value(k): self.value(x) for k, x in v.items()}
        return v

    def json(self, v):
        try:
            return jsonable(self.value(v))
        except KeyError:
            return {'skip': 1}
