"""Model of configparser for symbolic option names and values; files are read with the real parser."""
import configparser as _cp
import re

from symex import calls, values as V
from symex.core import Unsupported
from symex.values import SxDict, is_sym
from . import symbolic as S

_UNSET = object()
INSTANCES = []
SAVED = []


def key(option):
    """option names are compared in lower case"""
    return option.lower()


class Proxy(object):
    def __init__(self, parser, name):
        self.parser = parser
        self.name = name

    def _lookup(self, option, raw=False, vars=None):
        k = key(option)
        if vars is not None:
            raise Unsupported('configparser vars')
        sect = self.parser.data.get(self.name) if self.name != 'DEFAULT' else None
        if sect is not None and k in sect:
            v = sect[k]
        elif k in self.parser.defs:
            v = self.parser.defs[k]
        else:
            return _UNSET
        return v if raw else self._interpolate(v, 0)

    def _interpolate(self, v, depth):
        if is_sym(v) or v is None or '%' not in v:
            return v

        def part(m):
            if m.group(0) == '%%':
                return '%'
            if m.group(1) is None or depth > 5:
                raise Unsupported('interpolation syntax')
            x = self._lookup(m.group(1), True)
            if x is _UNSET or is_sym(x):
                raise Unsupported('interpolation of a symbolic or missing option')
            return self._interpolate(x, depth + 1)
        return re.sub(r'%%|%\(([^)]+)\)s|%', part, v)

    def get(self, option, fallback=None, *, raw=False, vars=None, **k):
        v = self._lookup(option, raw, vars)
        return fallback if v is _UNSET else v

    def __getitem__(self, option):
        v = self._lookup(option)
        if v is _UNSET:
            raise KeyError(option if not is_sym(option) else 'symbolic')
        return v

    def __setitem__(self, option, value):
        self.parser.set(self.name, option, value)

    def __contains__(self, option):
        return self._lookup(option) is not _UNSET

    def keys(self):
        own = list(self.parser.data[self.name].keys()) if self.name != 'DEFAULT' else []
        return own + [k for k in self.parser.defs.keys() if k not in own]

    def __iter__(self):
        return iter(self.keys())

    def items(self):
        return [(k, self[k]) for k in self.keys()]

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return S.Missing('configparser.SectionProxy.' + n)


class ConfigParser(object):
    def __init__(self, *a, **k):
        if a or k:
            raise Unsupported('configparser options')
        self.data = SxDict()
        self.defs = SxDict()
        INSTANCES.append(self)

    def _take(self, real):
        for k, v in real.defaults().items():
            self.defs[k] = v
        for s in real.sections():
            if s not in self.data:
                self.data[s] = SxDict()
            for k in real._sections[s]:
                self.data[s][k] = real._sections[s][k]

    def read(self, names, encoding=None):
        real = _cp.ConfigParser()
        r = real.read(names, encoding)
        self._take(real)
        return r

    def read_string(self, s, source='<string>'):
        real = _cp.ConfigParser()
        real.read_string(s)
        self._take(real)

    def read_dict(self, d, source='<dict>'):
        for s in d.keys():
            if s != 'DEFAULT' and not self.has_section(s):
                self.add_section(s)
            for o in d[s].keys():
                self.set(s, o, d[s][o])

    def has_section(self, s):
        return s in self.data

    def sections(self):
        return list(self.data.keys())

    def defaults(self):
        return self.defs

    def add_section(self, s):
        if bool(s == 'DEFAULT'):
            raise ValueError('Invalid section name: DEFAULT')
        if s in self.data:
            raise _cp.DuplicateSectionError('symbolic')
        self.data[s] = SxDict()

    def remove_section(self, s):
        return self.data.pop(s, None) is not None

    def _sect(self, s):
        if bool(s == 'DEFAULT'):
            return self.defs
        if s not in self.data:
            raise _cp.NoSectionError('symbolic')
        return self.data[s]

    def set(self, s, o, v=None):
        if v is not None and not isinstance(v, str):
            raise TypeError('option values must be strings')
        if not is_sym(v) and v is not None and '%' in re.sub(r'%%|%\([^)]+\)s', '', v):
            raise ValueError('invalid interpolation syntax')
        self._sect(s)[key(o)] = v

    def remove_option(self, s, o):
        return self._sect(s).pop(key(o), None) is not None

    def has_option(self, s, o):
        if not s or bool(s == 'DEFAULT'):
            return key(o) in self.defs
        if s not in self.data:
            return False
        return key(o) in self.data[s] or key(o) in self.defs

    def get(self, s, o, *, raw=False, vars=None, fallback=_UNSET):
        if not bool(s == 'DEFAULT') and s not in self.data:
            if fallback is _UNSET:
                raise _cp.NoSectionError('symbolic')
            return fallback
        v = Proxy(self, s)._lookup(o, raw, vars)
        if v is _UNSET:
            if fallback is _UNSET:
                raise _cp.NoOptionError('symbolic', 'symbolic')
            return fallback
        return v

    def __getitem__(self, s):
        if bool(s == 'DEFAULT'):
            return Proxy(self, 'DEFAULT')
        for name in self.data.keys():
            if bool(name == s):
                return Proxy(self, name)
        raise KeyError('symbolic')

    def __contains__(self, s):
        return bool(s == 'DEFAULT') or s in self.data

    def __setitem__(self, s, d):
        if bool(s == 'DEFAULT'):
            self.defs.clear()
        elif s in self.data:
            self.data[s].clear()
        else:
            self.data[s] = SxDict()
        for o in d.keys():
            self.set(s, o, d[o])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return S.Missing('configparser.' + n)


S.model('configparser', ConfigParser=ConfigParser, SafeConfigParser=ConfigParser, NoSectionError=_cp.NoSectionError,
        NoOptionError=_cp.NoOptionError, DuplicateSectionError=_cp.DuplicateSectionError, Error=_cp.Error,
        DEFAULTSECT='DEFAULT')


def begin():
    """what the parsers hold after loading is what every path starts with"""
    SAVED[:] = [(p, [(n, SxDict(d)) for n, d in p.data.items()], SxDict(p.defs)) for p in INSTANCES]


def reset():
    if SAVED:
        INSTANCES[:] = [p for p, _, _ in SAVED]
    for p, data, defs in SAVED:
        p.data = SxDict([(n, SxDict(d)) for n, d in data])
        p.defs = SxDict(defs)


S.BEGINS.append(begin)
S.RESETS.append(reset)
