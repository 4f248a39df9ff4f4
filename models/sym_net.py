"""Models of ladon (web services), of the project's log set-up, and of ipaddress for symbolic addresses."""
import ipaddress as _ip

import z3
from symex import calls, values as V
from symex.core import engine, Unsupported
from symex.values import SymStr, SymInt, is_sym, mkint
from . import symbolic as S
from . import shared

for _name, _attrs in shared.ladon().items():
    S.model(_name, **_attrs)
S.model('hgaa.log', **shared.log())


# -- ipaddress ---------------------------------------------------------------------------------------------------

HEXD = '0123456789abcdef'


class IPv6Address(object):
    """Symbolic address text: the groups are parsed as the standard library does."""

    def __init__(self, text):
        if not is_sym(text):
            self.groups = list(int(_ip.IPv6Address(text)).to_bytes(16, 'big'))
            self.groups = [self.groups[2 * i] * 256 + self.groups[2 * i + 1] for i in range(8)]
            return
        if not isinstance(text, str):
            raise Unsupported('IPv6Address of another kind')
        addr, pct, scope = text.partition('%') if '%' in text else (text, '', '')
        if bool(addr == ''):
            raise _ip.AddressValueError('Address cannot be empty')
        parts = addr.split(':') if is_sym(addr) else addr.split(':')
        if len(parts) < 3:
            raise _ip.AddressValueError('At least 3 parts expected')
        if '.' in parts[-1]:
            octs = parts[-1].split('.')
            if len(octs) != 4:
                raise _ip.AddressValueError('Expected 4 octets')
            vals = []
            for o in octs:
                if is_sym(o):
                    v = o.to_int()
                else:
                    v = int(o)
                if not bool(v <= 255):
                    raise _ip.AddressValueError('Octet not permitted')
                vals.append(v)
            parts[-1:] = [vals[0] * 256 + vals[1], vals[2] * 256 + vals[3]]
        if len(parts) > 9:
            raise _ip.AddressValueError('At most 8 colons permitted')
        skip = None
        for i in range(1, len(parts) - 1):
            if isinstance(parts[i], str) and bool(parts[i] == ''):
                if skip is not None:
                    raise _ip.AddressValueError('At most one :: permitted')
                skip = i
        if skip is not None:
            hi, lo = skip, len(parts) - skip - 1
            if bool(parts[0] == ''):
                hi -= 1
                if hi:
                    raise _ip.AddressValueError('Leading : only permitted as part of ::')
            if isinstance(parts[-1], str) and bool(parts[-1] == ''):
                lo -= 1
                if lo:
                    raise _ip.AddressValueError('Trailing : only permitted as part of ::')
            n = 8 - (hi + lo)
            if n < 1:
                raise _ip.AddressValueError('Expected at most 7 other parts with ::')
            groups = [self.group(p) for p in parts[:hi]] + [0] * n + [self.group(p) for p in (parts[-lo:] if lo else [])]
        else:
            if len(parts) != 8:
                raise _ip.AddressValueError('Exactly 8 parts expected without ::')
            groups = [self.group(p) for p in parts]
        self.groups = groups

    @staticmethod
    def group(p):
        if not isinstance(p, str):
            return p
        if not is_sym(p):
            if p == '' or len(p) > 4 or any(c not in '0123456789abcdefABCDEF' for c in p):
                raise _ip.AddressValueError('Only hex digits permitted')
            return int(p, 16)
        if not bool(calls.py_len(p) <= 4):
            raise _ip.AddressValueError('At most 4 characters permitted')
        try:
            return p.to_int(16)
        except ValueError:
            raise _ip.AddressValueError('Only hex digits permitted')

    @staticmethod
    def digits(g, n=4):
        if type(g) is int:
            return '%04x' % g
        return SymStr([V.Blob(V.Base('hex', 'hex', n, payload=(g.e, False, n)), 0, n, 't')])        # 0 <= g < 16 ** n

    @property
    def exploded(self):
        r = self.digits(self.groups[0])
        for g in self.groups[1:]:
            r = r + ':' + self.digits(g)
        return r

    @property
    def packed(self):
        r = b''
        for g in self.groups:
            r = r + calls.call(g.to_bytes, 2, 'big')
        return r

    version = 6

    def __int__(self):
        raise Unsupported('int of a symbolic address')

    @property
    def ipv4_mapped(self):
        raise Unsupported('ipv4_mapped')

    def __str__(self):
        raise Unsupported('text of a symbolic address')


def make_v6(text):
    return IPv6Address(text) if is_sym(text) else _ip.IPv6Address(text)


def address(text):
    if is_sym(text):
        if isinstance(text, str) and bool(calls.contains(':', text)):
            return IPv6Address(text)
        raise Unsupported('ip_address of a symbolic text')
    return _ip.ip_address(text)


calls.handle(_ip.IPv6Address, make_v6)
calls.handle(_ip.ip_address, address)


def reset():
    del shared.JSONWSPClient.made[:], shared.LadonWSGIApplication.made[:], shared.Server.made[:]
    shared.JSONWSPClient.answer = None


S.RESETS.append(reset)
