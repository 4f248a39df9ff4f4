"""Concrete context: runs a harness on the real, unmodified code with the inputs of one model."""
import contextlib
import importlib
import io
import os
import runpy
import sys


class ConcreteViolation(Exception):
    pass


class Ignored(Exception):
    pass


class ConCtx(object):
    sym = False

    def __init__(self, inputs, scratch=None):
        self.inputs = inputs
        self.names = {}
        self.obs = []
        self.checks = 0
        self.scratch = scratch
        self.env = {}

    def fresh(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else '%s#%d' % (base, n)

    def _get(self, name, default):
        return self.inputs.get(self.fresh(name), default)

    def imp(self, name):
        return importlib.import_module(name)

    def main(self, name, args):
        out, argv = io.StringIO(), sys.argv
        sys.argv = ['main'] + list(args)
        try:
            with contextlib.redirect_stdout(out):
                runpy.run_module(name, run_name='__main__')
            return out.getvalue()
        finally:
            sys.argv = argv

    def int(self, name, lo=None, hi=None):
        return self._get(name, lo if lo is not None else (min(0, hi) if hi is not None else 0))

    def float(self, name, lo, hi, den=4):
        return float(self._get(name, float(lo)))

    def bool(self, name):
        return bool(self._get(name, False))

    def chars(self, name, n, domain='latin'):
        return self._get(name, ('a' if domain in ('latin', 'ascii') else domain[0]) * n)

    def str(self, name, maxlen, domain='latin', minlen=0):
        n = self.int(name + '.len', minlen, maxlen)
        return self.chars(name, n, domain)

    def text(self, name, max_nb=70000, min_n=0, max_n=None, plain=True):
        return self._get(name, 'a' * min_n)

    def data(self, name, max_n=70000, min_n=0):
        return bytes.fromhex(self._get(name, 'a0' * min_n))

    def pick(self, name, options):
        return options[self._get(name, 0)]

    def choice(self, name, strings):
        return self._get(name, strings[0])

    def enum(self, name, cls, members=None):
        ms = members or list(cls)
        return cls(self._get(name, ms[0].value))

    def assume(self, cond):
        if not cond:
            raise Ignored()

    def check(self, cond, label):
        self.checks += 1
        if not cond:
            raise ConcreteViolation(label)

    def observe(self, key, value):
        self.obs.append([key, jsonable(value)])

    # connectives without forking in symbolic mode
    def And(self, *a): return all(a)
    def Or(self, *a): return any(a)
    def Not(self, a): return not a
    def Implies(self, a, b): return (not a) or bool(b)
    def If(self, c, a, b): return a if c else b

    def same(self, a, b):
        return same(a, b)

    def world(self):
        from models import concrete
        return concrete.world()


def same(a, b):
    """Equality of values including their type; lists and tuples element-wise."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (set, frozenset)):
        return len(a) == len(b) and all(any(same(x, y) for y in b) for x in a)
    return bool(a == b)


def jsonable(v):
    t = type(v)
    if v is None or t in (bool, int, str):
        return v
    if t is float:
        return {'f': repr(v)}
    if t in (bytes, bytearray):
        return {'b': bytes(v).hex()}
    if t in (list, tuple):
        return [jsonable(x) for x in v]
    if isinstance(v, dict):
        return {'d': sorted([jsonable(k), jsonable(x)] for k, x in v.items())}
    if isinstance(v, (set, frozenset)):
        return {'s': sorted((jsonable(x) for x in v), key=repr)}
    if hasattr(v, 'name') and hasattr(v, 'value'):
        return {'e': type(v).__name__ + '.' + v.name}
    return {'o': type(v).__name__}
