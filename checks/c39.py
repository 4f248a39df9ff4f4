"""C39: the text form of a certificate shows every field with its exact value."""
import base64

from checks import certref as R

REQUIRES = ['hgaa.attcert']
ASSUMPTIONS = ['optional fields are absent or not empty', 'opaque texts are valid Unicode, their characters are not inspected; byte strings likewise',
               'ideal signatures (C31)']
BOUNDS = {'quick': 'each section with all fields free: numbers in range, texts and byte strings of any length that fits or absent (identifying texts also as up to 2 characters, incl. line breaks and non-ASCII ones); 0 to 2 attributes and extensions or none at all; delegation rules and signature present or absent; any attribute type; signing with any of three keys and any algorithm text',
          'thorough': 'same, every two sections free at a time'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 600
# section -> title, [(label, field)]
SHOWN = {
    'info': ('INFORMATION', [('VERSION', 'version'), ('SERIAL', 'serial'), ('ISSUED', 'issued')]),
    'issuer': ('ISSUER', [('PUBLIC KEY', 'pub_key'), ('KEY ALGORITHM', 'key_algo'), ('UID', 'uid'), ('NAME', 'name'), ('URL', 'url')]),
    'holder': ('HOLDER', [('PUBLIC KEY', 'pub_key'), ('KEY ALGORITHM', 'key_algo'), ('UID', 'uid'), ('NAME', 'name')]),
    'att': ('ATTRIBUTE', [('ATTRIBUTE ID', 'att_id'), ('ATTRIBUTE TYPE', 'att_type'), ('ATTRIBUTE VALUE', 'att_value'), ('ATTRIBUTE NAME', 'att_name'),
                          ('EXTENSION BYTES', 'extra_bytes')]),
    'rev': ('REVOCATION RULES', [('VALID AFTER', 'valid_after'), ('VALID BEFORE', 'valid_before'), ('URL', 'url'), ('EXTENSION BYTES', 'extra_bytes')]),
    'del': ('DELEGATION RULES', [('EXTENSION BYTES', 'extra_bytes')]),
    'ext': ('EXTENSION', [('EXTENSION ID', 'eid'), ('EXTENSION BYTES', 'extra_bytes')]),
    'sig': ('SIGNATURE', [('SIGNATURE ALGORITHM', 'sig_algo'), ('SIGNATURE VALUE', 'sig_value')]),
}
MARK = {'att': '####', 'ext': '####'}


def shown(kind, v):
    if kind.startswith('bytes'):
        return base64.b64encode(bytes(v)).decode('ascii')
    return v if kind.startswith('text') else str(v)


def lines(name, values):
    """the lines of a section"""
    kinds = dict(R.SECTIONS[name][1])
    title, fields = SHOWN[name]
    body = ['%s: %s' % (label, shown(kinds[f], values[f])) for label, f in fields if values[f] is not None]
    if name == 'del' and not body:
        return []
    m = MARK.get(name, '====')
    t = title if name not in MARK else '%s: %s' % (title, values[fields[0][1]])
    return ['%s BEGIN %s %s' % (m, t, m)] + body + ['%s END %s %s' % (m, t, m)]


def expected(p):
    out = ['---- BEGIN ATTRIBUTE CERTIFICATE ----', 'FORMAT: TEXT', 'VERSION: %d' % p['info'].values['version']]
    for n in ('info', 'issuer', 'holder'):
        out += lines(n, p[n].values)
    for n, key, title in (('att', 'atts', 'ATTRIBUTE SET'), ('ext', 'exts', 'EXTENSIONS')):
        if n == 'ext':
            out += lines('rev', p['rev'].values)
            if p['del']:
                out += lines('del', p['del'].values)
        if p[key]:
            out.append('==== BEGIN %s ====' % title)
            for s in p[key]:
                out += lines(n, s.values)
            out.append('==== END %s ====' % title)
    if p['sig']:
        out += lines('sig', p['sig'].values)
    return out + ['---- END ATTRIBUTE CERTIFICATE ----']


def check_text(ctx, p, text, what):
    want = expected(p)
    exp = want[0]
    for l in want[1:]:
        exp = exp + '\n' + l
    ctx.check(ctx.same(text, exp), what)


def whole(ctx, how, shape):
    ac = ctx.imp('hgaa.attcert')
    p = R.parts(ctx, 'c', how, **shape)
    cert = R.Cert(p).build(ctx)
    check_text(ctx, p, cert.export_ac(ac.ExportFormat.TEXT) if ctx.pick('exported', [True, False]) else str(cert), 'every field is shown')
    R.check_cert(ctx, p, cert, 'showing leaves ')


def section(ctx, name, mode):
    """a section by itself"""
    s = R.section(ctx, 's', name, mode, False, 1)
    want = lines(name, s.values)
    exp = ''
    for l in want:
        exp = exp + l + '\n'
    ctx.check(ctx.same(str(s.obj), exp), 'every field is shown')


def signed(ctx, how, before):
    """signed while exporting"""
    ac = ctx.imp('hgaa.attcert')
    p = R.parts(ctx, 'c', how, 1, 1, True, before)
    k = ctx.pick('key', [0, 1, 2])
    w = ctx.world()
    p['issuer'].obj.pub_key = p['issuer'].values['pub_key'] = w.pem(k)
    cert = R.Cert(p).build(ctx)
    algo = ctx.text('algo', max_nb=1000, min_n=1) if ctx.pick('algo?', [True, False]) else None
    text = cert.export_ac(ac.ExportFormat.TEXT, sign=True, prvi_key=w.key(k)) if algo is None else \
        cert.export_ac(ac.ExportFormat.TEXT, sign=True, prvi_key=w.key(k), sig_algo=algo)
    ctx.check(cert.verify_signature(), 'the certificate is signed')
    sig = {'sig_algo': algo if algo is not None else 'RSASSA-PKCS1-v1_5:SHA256', 'sig_value': cert.signature.sig_value}
    ctx.check(ctx.same(cert.signature.sig_algo, sig['sig_algo']), 'by the algorithm asked for')
    p['sig'] = R.Sec('sig', cert.signature, sig, True)
    check_text(ctx, p, text, 'every field is shown, with the signature')


def no_key(ctx, before):
    ac = ctx.imp('hgaa.attcert')
    p = R.parts(ctx, 'c', {'att0': 'opaque'}, 1, 1, True, before)
    cert = R.Cert(p).build(ctx)
    f = ctx.pick('format', ['TEXT', 'BYTES', 'BASE64', 'BASE64FULL'])
    refused = True
    try:
        cert.export_ac(ac.ExportFormat[f], sign=True)
        refused = False
    except Exception:
        pass
    ctx.check(refused, 'signing without a key is refused')
    R.check_cert(ctx, p, cert, 'and leaves ')


def cases(tier):
    full = {'atts': 1, 'exts': 1}
    names = ['issuer', 'holder', 'info', 'att0', 'rev', 'del', 'ext0', 'sig']
    out = [('whole', {'how': {n: 'opaque'}, 'shape': full}) for n in names]
    out += [('whole', {'how': {n: {f: 'chars'}}, 'shape': full}) for n, f in (('issuer', 'uid'), ('holder', 'name'), ('att0', 'att_value'), ('att0', 'att_id'),
                                                                              ('ext0', 'eid'), ('rev', 'url'), ('sig', 'sig_algo'))]
    for atts, exts in ((None, None), (0, 0), (2, 0), (0, 2), (2, 2)):
        for d in (True, False):
            out.append(('whole', {'how': {'info': {'serial': 'opaque'}}, 'shape': {'atts': atts, 'exts': exts, 'dele': d, 'sig': not d}}))
    out += [('whole', {'how': {'att0': {'att_value': 'opaque'}, 'att1': {'att_value': 'opaque', 'att_id': 'opaque'}}, 'shape': {'atts': 2, 'exts': 1}})]
    out += [('whole', {'how': {'att0': {'att_id': 'chars'}, 'att1': {'att_id': 'chars'}}, 'shape': {'atts': 2, 'exts': 1}}),
            ('whole', {'how': {'ext0': {'eid': 'chars'}, 'ext1': {'eid': 'chars'}}, 'shape': {'atts': 1, 'exts': 2}})]
    out += [('section', {'name': n, 'mode': m}) for n in R.SECTIONS for m in ('opaque', 'chars') if (n, m) not in (('issuer', 'chars'), ('holder', 'chars'), ('att', 'chars'))]
    out += [('signed', {'how': {n: 'opaque'}, 'before': b}) for n in ('holder', 'att0', 'rev') for b in (True, False)]
    out += [('no_key', {'before': b}) for b in (True, False)]
    if tier == 'thorough':
        out += [('whole', {'how': {a: 'opaque', b: 'opaque'}, 'shape': full}) for i, a in enumerate(names) for b in names[:i]]
    return out
