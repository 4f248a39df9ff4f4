"""Ideal cryptography: digests and signatures are terms over what was hashed or signed; equal only for equal contents.

RSA keys are the fixture keys; an exported key is one opaque cell whose content is the real export.
"""
import hashlib
import hmac
import json
import os

import z3
from symex import calls, values as V
from symex.core import engine, Unsupported
from symex.values import SymBytes, SymStr, SymByteArray, SymChoice, Blob, Base, Seq, is_sym, literal_cid
from . import symbolic as S

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KEYS = json.load(open(os.path.join(HERE, 'fixtures', 'keys.json')))
for _k in KEYS:
    _k['pub'] = _k['pub'].encode()
    _k['priv'] = _k['priv'].encode()
    _k['der'] = bytes.fromhex(_k['der'])


def literal(content, kind='key'):
    """An opaque cell with known content."""
    return SymBytes([Blob(Base(kind, kind, len(content), payload=bytes(content), cid=literal_cid(content)), 0, len(content), 'b')])


def cells_of(x, what):
    if type(x) in (str, SymStr, SymChoice):
        x = x.encode('utf-8')
    c = SymBytes.lift(x)
    if c is None:
        raise TypeError('Expected a string or a bytes-like object for ' + what)
    return c


class Key(object):
    def __init__(self, i, private):
        self.i = i
        self.private = private

    def public_key(self):
        return Key(self.i, False)

    publickey = public_key

    def has_private(self):
        return self.private

    def size_in_bits(self):
        return KEYS[self.i]['bits']

    def size_in_bytes(self):
        return KEYS[self.i]['bits'] // 8

    def export_key(self, format='PEM', passphrase=None, pkcs=1, protection=None, **k):
        if k or (passphrase is not None and not self.private):
            raise Unsupported('encrypted key export')
        if passphrase is not None and len(passphrase) == 0:
            raise ValueError('Empty passphrase')
        if protection is not None and passphrase is None:
            raise ValueError("'protection' and 'prot_params' require a passphrase")
        if self.private and (passphrase is not None or pkcs == 8) and format in ('PEM', 'DER'):
            return SymBytes([Blob(Base('enckey', 'enckey', 1800, payload=(self.i, phrase(passphrase))), 0, 1800, 'b')])
        if pkcs not in (1, 8):
            raise ValueError('pkcs')
        if format == 'PEM':
            return literal(KEYS[self.i]['priv' if self.private else 'pub'])
        if format == 'DER' and not self.private:
            return literal(KEYS[self.i]['der'])
        raise Unsupported('key export format')

    exportKey = export_key

    def __eq__(self, o):
        return isinstance(o, Key) and self.i == o.i and self.private == o.private

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


def phrase(p):
    if p is None:
        return None
    if type(p) in (str, SymStr, SymChoice):
        p = p.encode('latin-1')
    c = SymBytes.lift(p)
    if c is None:
        raise TypeError('passphrase')
    return c


def import_key(extern_key, passphrase=None):
    p = phrase(passphrase)
    c = cells_of(extern_key, 'key')
    if len(c) == 1 and type(c[0]) is Blob and c[0].base.kind == 'enckey' and c[0].full():
        i, want = c[0].base.payload
        if want is not None:
            if p is None:
                raise ValueError('The private key is encrypted: a passphrase is required')
            if not V.mkbool(V.zbool(SymBytes(want)._eq_cells(want, p))):
                raise ValueError('Incorrect passphrase (or the encrypted private key is corrupted)')
        return Key(i, True)
    n = Seq._total(c)
    eng = engine()
    forms = [(k[f], Key(i, f == 'priv')) for i, k in enumerate(KEYS) for f in ('pub', 'der', 'priv')]
    if all(type(x) is int for x in c):
        for content, key in forms:
            if bytes(c) == content:
                return key
        raise ValueError('RSA key format is not supported')
    if len(c) == 1 and type(c[0]) is Blob and c[0].full() and c[0].base.kind in ('key', 'bytes', 'text'):
        cid = c[0].base.cid
        if isinstance(cid, int):
            for content, key in forms:
                if literal_cid(content) == cid:
                    return key
        else:
            for content, key in forms:
                eng.assume(z3.Implies(cid == literal_cid(content), V.z(n) == len(content)))
                if eng.branch(cid == literal_cid(content)):
                    return key
        raise ValueError('RSA key format is not supported')
    if len(c) == 1 and type(c[0]) is Blob and c[0].full():
        raise ValueError('RSA key format is not supported')
    raise Unsupported('import of a composed key')


def generate(bits, randfunc=None, e=65537):
    bits = bits if type(bits) is int else bits.__index__()
    fit = [i for i in reversed(range(len(KEYS))) if KEYS[i]['bits'] == bits]
    if fit:
        from models import sym_world
        w = sym_world.world()
        w.generated += 1
        return Key(fit[(w.generated - 1) % len(fit)], True)
    raise Unsupported('generation of a key of %d bits' % bits)


class Hash(object):
    def __init__(self, algo, size, data=None):
        self.algo = algo
        self.size = size
        self.digest_size = size
        self.name = algo
        self.cells = []
        if data is not None:
            self.update(data)

    def update(self, data):
        c = SymBytes.lift(data)
        if c is None:
            raise TypeError('Object type cannot be passed to C code')
        self.cells = self.cells + c
        return self

    def digest(self):
        return SymBytes([Blob(Base('hash', self.algo, self.size, payload=(self.algo, self.cells)), 0, self.size, 'b')])

    def hexdigest(self):
        n = 2 * self.size
        return SymStr([Blob(Base('hashhex', self.algo, n, payload=(self.algo, self.cells)), 0, n, 't')])

    def copy(self):
        return Hash(self.algo, self.size, SymBytes(self.cells))


def hasher(algo, size):
    def new(data=None, **k):
        return Hash(algo, size, data)
    return new


class Scheme(object):
    def __init__(self, key):
        if not isinstance(key, Key):
            raise AttributeError('not a key')
        self.key = key

    def can_sign(self):
        return self.key.private

    def sign(self, h):
        if not self.key.private:
            raise TypeError('This is not a private key')
        n = self.key.size_in_bytes()
        return SymBytes([Blob(Base('sig', 'sig', n, payload=((h.algo, self.key.i), h.cells)), 0, n, 'b')])

    def verify(self, h, signature):
        if signature is None:
            raise TypeError("object of type 'NoneType' has no len()")
        c = SymBytes.lift(signature)
        if c is None:
            raise ValueError('Invalid signature')
        c = [x for x in c if not (type(x) is Blob and x.base.kind != 'sig' and V.decide_eq(x.length(), 0))]
        if any(type(x) is Blob and x.base.kind == 'sig' for x in c):
            if len(c) != 1 or not c[0].full():
                raise ValueError('Invalid signature')
            (algo, i), cells = c[0].base.payload
            if algo == h.algo and i == self.key.i and bool(SymBytes(cells)._eq_cells(cells, h.cells)):
                return None
        raise ValueError('Invalid signature')


def new_scheme(key, **k):
    return Scheme(key)


def random_int(a, b):
    from models import sym_world
    w = sym_world.world()
    w.event('random')
    if w.fixed is not None:
        w.fixed += 1
        return a + (w.fixed - 1) % (b - a + 1)
    return S.CTX.int('rand', a, b)


def getrandbits(n):
    n = n if type(n) is int else n.__index__()
    return random_int(0, 2 ** n - 1)


def randint(a, b):
    return random_int(a, b)


def rand_bytes(n):
    n = n if type(n) is int else n.__index__()
    return calls.call(random_int(0, 256 ** n - 1).to_bytes, n, 'little')


# -- bcrypt ------------------------------------------------------------------------------------------------------

def bc_hash(cells, salt):
    return SymBytes([Blob(Base('bc', 'bc', 60, payload=(salt, cells)), 0, 60, 'b')])


def bc_check_len(c):
    if not V.decide_le(Seq._total(c), 72):
        raise ValueError('password cannot be longer than 72 bytes, truncate manually if necessary')


def bc_cells(x):
    c = SymBytes.lift(x)
    if c is None or isinstance(x, bytearray):
        raise TypeError("argument: expected bytes")
    return c


def bc_salt(x):
    c = bc_cells(x)
    if len(c) == 1 and type(c[0]) is Blob and c[0].base.kind == 'bc' and c[0].full():
        return c[0].base.payload[0], c[0]
    if all(type(v) is int for v in c) and bytes(c).startswith(b'$2b$') and len(c) == 29:
        return bytes(c), None
    if any(type(v) is Blob and v.base.kind == 'bc' for v in c):
        raise Unsupported('part of a password hash')
    raise ValueError('Invalid salt')


SALTS = [0]


def gensalt(rounds=12, prefix=b'2b'):
    SALTS[0] += 1
    return b'$2b$12$' + b'%022d' % SALTS[0]


def hashpw(password, salt):
    c = bc_cells(password)
    bc_check_len(c)
    return bc_hash(c, bc_salt(salt)[0])


def checkpw(password, hashed):
    from models import sym_world
    sym_world.world().event('password')
    c = bc_cells(password)
    bc_check_len(c)
    s, blob = bc_salt(hashed)
    if blob is None:
        raise ValueError('Invalid salt')
    return V.mkbool(V.zbool(SymBytes(c)._eq_cells(c, blob.base.payload[1])))


def compare_digest(a, b):
    return a == b


def reset():
    SALTS[0] = 0


S.RESETS.append(reset)
S.model('Crypto')
S.model('Crypto.Random', get_random_bytes=rand_bytes)
S.model('Crypto.Random.random', getrandbits=getrandbits, randint=randint)
S.model('Crypto.PublicKey')
S.model('Crypto.PublicKey.RSA', import_key=import_key, importKey=import_key, generate=generate, RsaKey=Key)
S.model('Crypto.Signature')
S.model('Crypto.Signature.pkcs1_15', new=new_scheme)
S.model('Crypto.Hash')
for _n, _a, _s in (('SHA256', 'sha256', 32), ('SHA1', 'sha1', 20), ('SHA', 'sha1', 20), ('SHA512', 'sha512', 64),
                   ('SHA384', 'sha384', 48), ('SHA224', 'sha224', 28), ('MD5', 'md5', 16)):
    S.model('Crypto.Hash.' + _n, new=hasher(_a, _s), digest_size=_s)
S.model('bcrypt', hashpw=hashpw, checkpw=checkpw, gensalt=gensalt)
for _a, _s in (('sha256', 32), ('sha1', 20), ('sha512', 64), ('sha384', 48), ('sha224', 28), ('md5', 16)):
    calls.handle(getattr(hashlib, _a), hasher(_a, _s))
calls.handle(hmac.compare_digest, compare_digest)
