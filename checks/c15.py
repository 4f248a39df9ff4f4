"""C15: a certificate survives export and import in every supported format."""
from checks import certref as R

REQUIRES = ['hgaa.attcert']
ASSUMPTIONS = ['the signature of an exported certificate is arbitrary bytes here (signing is C17)',
               'optional fields are absent or not empty (an empty one comes back as absent, C14)',
               'opaque texts are valid Unicode, their characters are not inspected; byte strings likewise']
BOUNDS = {'quick': 'every two sections (in BYTES; every section in the other formats) with all fields free: numbers in range, texts and byte strings of any length that fits or absent; 0 to 2 attributes and extensions (identifiers also as up to 2 characters), or none at all; 256, 257 or 300 of them with one free; delegation rules and signature present or absent; formats BYTES, BASE64, BASE64FULL',
          'thorough': 'same, 2 sections free at a time, up to 3 attributes and extensions'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 1200
FORMATS = ['BYTES', 'BASE64', 'BASE64FULL']


def roundtrip(ctx, fmt, how, shape):
    ac = ctx.imp('hgaa.attcert')
    F = ac.ExportFormat[fmt]
    p = R.parts(ctx, 'c', how, **shape)
    cert = R.Cert(p).build(ctx)
    out = cert.export_ac(F)
    ctx.observe('size', len(out))
    R.check_cert(ctx, p, cert, 'exporting leaves ')
    back = ac.AttributeCertificate.import_ac(out, F)
    R.check_cert(ctx, p, back, 'imported ')
    ctx.check(back == cert, 'the imported certificate equals the original')
    ctx.check(cert == back, 'the original equals the imported certificate')


def count(ctx, what, n, fmt):
    """many attributes or extensions"""
    ac = ctx.imp('hgaa.attcert')
    F = ac.ExportFormat[fmt]
    p = R.parts(ctx, 'c', {}, 0, 0)
    at = ctx.pick('at', [0, 254, 255, n - 1])
    many = []
    for i in range(n):
        v = {'att_id': 'i%d' % i, 'att_type': ac.AttributeType.INT, 'att_value': '%d' % i, 'att_name': None, 'extra_bytes': None} if what == 'att' else {'eid': 'i%d' % i, 'extra_bytes': b'x'}
        if i == at:
            v['att_value' if what == 'att' else 'eid'] = ctx.text('value', max_nb=1000, min_n=1)
        many.append(R.make(ctx, what, v))
    p[what + 's'] = many
    cert = R.Cert(p).build(ctx)
    back = ac.AttributeCertificate.import_ac(cert.export_ac(F), F)
    R.check_cert(ctx, p, back, 'imported ')


def again(ctx, fmt, how):
    """Exporting the imported certificate gives the same export; a bytes or text form of a BASE64 export imports alike."""
    ac = ctx.imp('hgaa.attcert')
    F = ac.ExportFormat[fmt]
    p = R.parts(ctx, 'c', how, 1, 1)
    cert = R.Cert(p).build(ctx)
    out = cert.export_ac(F)
    keep = bytes(out) if fmt == 'BYTES' else out
    back = ac.AttributeCertificate.import_ac(out, F)
    ctx.check(ctx.same(bytes(back.export_ac(F)) if fmt == 'BYTES' else back.export_ac(F), keep), 'exporting the imported certificate gives the same')
    if fmt == 'BASE64':
        R.check_cert(ctx, p, ac.AttributeCertificate.import_ac(out.decode('utf-8'), F), 'from text ')
    if fmt == 'BASE64FULL':
        R.check_cert(ctx, p, ac.AttributeCertificate.import_ac(out.encode('utf-8'), F), 'from bytes ')


def refused(ctx, how):
    """No importer: TEXT, XML; no exporter: XML"""
    ac = ctx.imp('hgaa.attcert')
    p = R.parts(ctx, 'c', how, 1, 1)
    cert = R.Cert(p).build(ctx)
    fmt = ctx.pick('format', ['TEXT', 'XML'])
    src = ctx.pick('from', FORMATS)
    out = cert.export_ac(ac.ExportFormat[src])
    for f in (lambda: ac.AttributeCertificate.import_ac(out, ac.ExportFormat[fmt]), lambda: cert.export_ac(ac.ExportFormat.XML)):
        try:
            f()
            ok = False
        except Exception:
            ok = True
        ctx.check(ok, 'refused with an exception')


SHAPES = [dict(atts=a, exts=e, dele=d, sig=s) for a, e, d, s in
          [(1, 1, True, True), (0, 0, False, False), (None, None, False, True), (2, 0, True, False), (0, 2, False, True), (2, 2, True, True)]]


def cases(tier):
    out = []
    names = ['issuer', 'holder', 'info', 'att0', 'rev', 'del', 'ext0', 'sig']
    for i, n in enumerate(names):
        for j, f in enumerate(FORMATS):
            out.append(('roundtrip', {'fmt': f, 'how': {n: 'opaque'}, 'shape': SHAPES[0]}))
            if tier == 'thorough' or f == 'BYTES':
                for m in names[i + 1:]:
                    out.append(('roundtrip', {'fmt': f, 'how': {n: 'opaque', m: 'opaque'}, 'shape': SHAPES[0]}))
    for k, s in enumerate(SHAPES[1:]):
        for f in FORMATS:
            out.append(('roundtrip', {'fmt': f, 'how': {'info': 'opaque', 'rev': {'url': 'opaque'}}, 'shape': s}))
    for f in FORMATS:
        out.append(('roundtrip', {'fmt': f, 'how': {'att0': {'att_id': 'opaque', 'att_value': 'opaque'}, 'att1': {'att_id': 'opaque', 'att_value': 'opaque'}}, 'shape': SHAPES[3]}))
        out.append(('roundtrip', {'fmt': f, 'how': {'ext0': 'opaque', 'ext1': 'opaque'}, 'shape': SHAPES[4]}))
        out.append(('again', {'fmt': f, 'how': {'info': 'opaque', 'holder': {'uid': 'opaque', 'name': 'opaque'}}}))
        out.append(('roundtrip', {'fmt': f, 'how': {'ext0': {'eid': 'chars'}, 'ext1': {'eid': 'chars'}}, 'shape': SHAPES[4]}))
        out.append(('roundtrip', {'fmt': f, 'how': {'att0': {'att_id': 'chars'}, 'att1': {'att_id': 'chars'}}, 'shape': SHAPES[3]}))
        if tier == 'thorough':
            out.append(('roundtrip', {'fmt': f, 'how': {'att1': 'opaque', 'ext2': 'opaque'}, 'shape': dict(atts=3, exts=3, dele=True, sig=True)}))
    out += [('count', {'what': w, 'n': n, 'fmt': f}) for w, n, f in (('att', 256, 'BYTES'), ('att', 300, 'BASE64'), ('ext', 257, 'BYTES'))]
    out.append(('refused', {'how': {'info': 'opaque', 'del': 'opaque'}}))
    return out
