"""Certificate sections with symbolic fields: what the fields are, what fits, what counts as equal."""

ODD = 'aA/\x00\n \xe9\xc9\u4e2d\U0001f600'          # one to four bytes each, letters of both cases, blanks

# section -> (class, [(field, kind, argument of the constructor)]); '?' marks fields that may be absent
SECTIONS = {
    'info': ('ACInformation', [('version', 'u8'), ('serial', 'u160'), ('issued', 'u32')]),
    'issuer': ('ACIssuer', [('pub_key', 'bytes'), ('key_algo', 'text'), ('uid', 'text'), ('name', 'text?'), ('url', 'text?')]),
    'holder': ('ACHolder', [('pub_key', 'bytes'), ('key_algo', 'text'), ('uid', 'text'), ('name', 'text?')]),
    'att': ('ACAttribute', [('att_id', 'text'), ('att_type', 'type'), ('att_value', 'text?'), ('att_name', 'text?'), ('extra_bytes', 'bytes?')]),
    'rev': ('ACRevocationRules', [('valid_after', 'u32'), ('valid_before', 'u32'), ('url', 'text?'), ('extra_bytes', 'bytes?')]),
    'del': ('ACDelegationRules', [('extra_bytes', 'bytes?')]),
    'ext': ('ACExtensions', [('eid', 'text'), ('extra_bytes', 'bytes?')]),
    'sig': ('ACSignature', [('sig_algo', 'text!'), ('sig_value', 'bytes!')]),      # '!': empty comes back as absent
}
RANGE = {'u8': (0, 2 ** 8 - 1), 'u160': (0, 2 ** 160 - 1), 'u32': (0, 2 ** 32 - 1)}
CONST = {'version': 1, 'serial': 77, 'issued': 1500000000, 'pub_key': b'key', 'key_algo': 'RSA', 'uid': '/u/1', 'name': 'N\xe4me', 'url': 'http://a/',
         'att_id': '/attribute/user/a', 'att_value': '12', 'att_name': 'a', 'extra_bytes': b'\x00\x01', 'valid_after': 1500000000,
         'valid_before': 1500086400, 'eid': '/ext/1', 'sig_algo': 'RSASSA-PKCS1-v1_5:SHA256', 'sig_value': b'sig'}


class Sec(object):
    """A section object together with the values given for its fields."""

    def __init__(self, name, obj, values, fits):
        self.name = name
        self.obj = obj
        self.values = values
        self.fits = fits


def field_value(ctx, tag, field, kind, how, over=False, least=0):
    """-> value, condition under which it fits its slot.  how: 'const', 'opaque', 'chars'"""
    base = kind.rstrip('?!')
    if how == 'const':
        if base == 'type':
            return ctx.imp('hgaa.attcert').AttributeType.STRING, True
        return CONST[field], True
    if kind.endswith('?') and not ctx.pick(tag + '.there', [True, False]):
        return None, True
    if base in RANGE:
        lo, hi = RANGE[base]
        v = ctx.int(tag) if over else ctx.int(tag, lo, hi)
        return v, ctx.And(v >= lo, v <= hi)
    if base == 'type':
        return ctx.enum(tag, ctx.imp('hgaa.attcert').AttributeType), True
    big = 70000 if over else 65535
    least = least if kind[-1] in '?!' else 0
    if base == 'text':
        if how == 'chars':
            return ctx.str(tag, 2, ODD, least), True
        v = ctx.text(tag, max_nb=big, min_n=least)
        return v, len(v.encode('utf-8')) <= 65535
    if how == 'chars':
        return ctx.str(tag, 2, 'byte', least).encode('latin-1'), True
    v = ctx.data(tag, max_n=big, min_n=least)
    return v, len(v) <= 65535


def section(ctx, tag, name, how, over=False, least=0):
    """how: a mode for all fields, or a dict field -> mode (other fields constant)"""
    clsname, fields = SECTIONS[name]
    values, fits = {}, []
    for f, kind in fields:
        h = how if isinstance(how, str) else how.get(f, 'const')
        values[f], ok = field_value(ctx, '%s.%s' % (tag, f), f, kind, h, over, least)
        fits.append(ok)
    return make(ctx, name, values, ctx.And(True, *fits))


def make(ctx, name, values, fits=True):
    clsname, fields = SECTIONS[name]
    return Sec(name, getattr(ctx.imp('hgaa.attcert'), clsname)(**values), values, fits)


def norm(ctx, kind, v):
    """an empty optional value counts as absent"""
    if kind[-1] in '?!' and v is not None and len(v) == 0:
        return None
    return v


def same_value(ctx, kind, a, b):
    """a, b: values of a field"""
    a, b = norm(ctx, kind, a), norm(ctx, kind, b)
    if a is None or b is None:
        return a is None and b is None
    if kind.startswith('bytes'):
        return ctx.same(bytes(a), bytes(b))
    return ctx.same(a, b)


def same_section(ctx, name, values, obj):
    """condition: obj's fields are these values"""
    return ctx.And(True, *[same_value(ctx, kind, values[f], getattr(obj, f)) for f, kind in SECTIONS[name][1]])


def check_section(ctx, name, values, obj, label=''):
    for f, kind in SECTIONS[name][1]:
        ctx.check(same_value(ctx, kind, values[f], getattr(obj, f)), '%s%s.%s' % (label, name, f))


# -- whole certificates -----------------------------------------------------------------------------------------
class Cert(object):
    def __init__(self, parts):
        self.parts = parts          # dict: issuer, holder, info, rev: Sec; atts, exts: list of Sec or None; del, sig: Sec or None

    def build(self, ctx):
        p = self.parts
        objs = lambda l: None if l is None else [s.obj for s in l]
        return ctx.imp('hgaa.attcert').AttributeCertificate(
            p['issuer'].obj, p['holder'].obj, p['info'].obj, objs(p['atts']), p['rev'].obj, p['del'].obj if p['del'] else None,
            objs(p['exts']), p['sig'].obj if p['sig'] else None)


def parts(ctx, tag='c', how=None, atts=1, exts=1, dele=True, sig=True):
    """how: dict section (att0, ext1, ...) -> mode; atts, exts: number or None; optional fields are absent or not empty"""
    how = how or {}
    many = lambda name, n: None if n is None else [section(ctx, '%s.%s%d' % (tag, name, i), name, how.get('%s%d' % (name, i), {}), False, 1)
                                                   for i in range(n)]
    one = lambda name: section(ctx, '%s.%s' % (tag, name), name, how.get(name, {}), False, 1)
    p = {'issuer': one('issuer'), 'holder': one('holder'), 'info': one('info'), 'atts': many('att', atts), 'rev': one('rev'),
         'del': one('del') if dele else None, 'exts': many('ext', exts), 'sig': one('sig') if sig else None}
    for name, l in (('att', p['atts']), ('ext', p['exts'])):        # constant identifiers are distinct
        key = 'att_id' if name == 'att' else 'eid'
        for i, s in enumerate(l or []):
            if how.get('%s%d' % (name, i)) != 'opaque' and key not in how.get('%s%d' % (name, i), {}):
                v = dict(s.values)
                v[key] += str(i)
                l[i] = make(ctx, name, v, s.fits)
    return p


def check_cert(ctx, p, back, label):
    """back is a certificate with exactly these parts"""
    for name in ('issuer', 'holder', 'info'):
        check_section(ctx, name, p[name].values, getattr(back, name), label)
    check_section(ctx, 'rev', p['rev'].values, back.rev_rules, label)
    for name, attr in (('att', 'att_set'), ('ext', 'extensions')):
        want = p[name + 's'] or []
        got = getattr(back, attr)
        got = [] if got is None else list(got)
        ctx.check(len(got) == len(want), label + 'number of ' + attr)
        for w, g in zip(want, got):
            check_section(ctx, name, w.values, g, label)
    for name, attr in (('del', 'del_rules'), ('sig', 'signature')):
        got = getattr(back, attr)
        fields = SECTIONS[name][1]
        for f, kind in fields:
            want = p[name].values[f] if p[name] else None
            ctx.check(same_value(ctx, kind[:-1] + '?', want, getattr(got, f) if got is not None else None), '%s%s.%s' % (label, name, f))
        if p[name] is None:
            ctx.check(got is None or all(not getattr(got, f) for f, _ in fields), label + 'absent ' + attr)
