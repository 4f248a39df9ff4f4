"""Models of the libraries the code under test uses, for symbolic execution."""
import types

from symex import calls
from symex.core import Unsupported

MODELS = {}
RESETS = []
BEGINS = []
CTX = None            # the context of the path being executed


class Missing(object):
    """Stands for a part of a library that has no model; using it makes the path inconclusive."""

    def __init__(self, name):
        self.__dict__['_name'] = name

    def __call__(self, *a, **k):
        raise Unsupported('no model of ' + self._name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Missing(self._name + '.' + n)


def model(name, **attrs):
    """Registers a model module."""
    def factory(module):
        module.__sx_model__ = True
        module.__dict__.update(attrs)

        def missing(n, name=name):
            if n.startswith('__'):
                raise AttributeError(n)
            if name + '.' + n in MODELS:
                import importlib
                return importlib.import_module(name + '.' + n)
            return Missing(name + '.' + n)
        module.__getattr__ = missing
    MODELS[name] = factory


def begin():
    for f in BEGINS:
        f()
    reset()


def reset(ctx=None):
    global CTX
    CTX = ctx
    for f in RESETS:
        f()


from . import sym_crypto, sym_world, sym_orm, sym_net, sym_conf      # noqa: register themselves
