"""C16: truncated certificates and certificates with trailing bytes are refused."""
from checks import certref as R

REQUIRES = ['hgaa.attcert']
ASSUMPTIONS = ['the binary encoding, given directly or carried as base64 of exactly these bytes',
               'opaque texts are valid Unicode, their characters are not inspected; byte strings likewise']
BOUNDS = {'quick': 'certificates with each section in turn free (texts and byte strings of any length that fits or absent), 0 to 2 attributes and extensions, with and without delegation rules and signature; cut at every position; followed by any byte string of 1 to 70000 bytes (contents not inspected) or any 1 to 3 bytes',
          'thorough': 'same, more combinations'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 1200


SHORT = {'pub_key': b'k', 'key_algo': 'R', 'uid': 'u', 'name': 'N', 'url': 'h', 'att_id': 'a', 'att_value': 'v', 'att_name': 'n', 'extra_bytes': b'\x01',
         'eid': 'e', 'sig_algo': 'S', 'sig_value': b's'}


def damaged(ctx, how, shape, damage, fmt):
    ac = ctx.imp('hgaa.attcert')
    R.CONST.update(SHORT)
    p = R.parts(ctx, 'c', how, **shape)
    cert = R.Cert(p).build(ctx)
    enc = cert.encode()
    n = len(enc)
    if damage == 'cut':
        k = ctx.int('cut', 0)
        ctx.assume(k < n)
        bad = enc[:k]
    else:
        bad = enc + (ctx.data('more', min_n=1) if damage == 'more' else ctx.str('more', 3, 'byte', 1).encode('latin-1'))
    try:
        if fmt == 'BASE64':
            import base64
            ac.AttributeCertificate.import_ac(base64.b64encode(bad), ac.ExportFormat.BASE64)
        elif fmt == 'BYTES':
            ac.AttributeCertificate.import_ac(bad, ac.ExportFormat.BYTES)
        else:
            ac.AttributeCertificate.decode(bad)
        ok = False
    except Exception:
        ok = True
    ctx.observe('refused', ok)
    ctx.check(ok, 'refused')


SHAPES = [dict(atts=a, exts=e, dele=d, sig=s) for a, e, d, s in
          [(1, 1, True, True), (0, 0, False, False), (0, 0, False, True), (2, 0, True, False), (0, 2, False, True), (0, 0, True, False), (0, 1, True, False)]]


def cases(tier):
    out = []
    names = ['issuer', 'holder', 'info', 'att0', 'rev', 'del', 'ext0', 'sig']
    for n in names + [{'att0': {'att_id': 'opaque', 'att_value': 'opaque'}}, {'att0': {'att_name': 'opaque', 'extra_bytes': 'opaque'}}]:
        for d in ('cut', 'more'):
            out.append(('damaged', {'how': n if isinstance(n, dict) else {n: 'opaque'}, 'shape': SHAPES[0], 'damage': d, 'fmt': 'decode'}))
    for s in SHAPES:
        out.append(('damaged', {'how': {}, 'shape': s, 'damage': 'bytes', 'fmt': 'decode'}))
        out.append(('damaged', {'how': {'sig': {'sig_value': 'chars'}}, 'shape': s, 'damage': 'bytes', 'fmt': 'BYTES'}))
        out.append(('damaged', {'how': {'sig': {'sig_value': 'chars'}, 'ext0': {'extra_bytes': 'chars'}}, 'shape': s, 'damage': 'cut', 'fmt': 'decode'}))
    for s in SHAPES[1:]:
        for d in ('cut', 'more'):
            how = {'rev': {'url': 'opaque', 'extra_bytes': 'opaque'}} if not s['exts'] else {'ext0': 'opaque', 'ext1': 'opaque'}
            out.append(('damaged', {'how': how, 'shape': s, 'damage': d, 'fmt': 'BYTES'}))
            out.append(('damaged', {'how': {'sig': 'opaque'}, 'shape': s, 'damage': d, 'fmt': 'decode'}))
    for d in ('cut', 'more'):
        out.append(('damaged', {'how': {'info': 'opaque', 'sig': {'sig_value': 'opaque'}}, 'shape': SHAPES[1], 'damage': d, 'fmt': 'BASE64'}))
        out.append(('damaged', {'how': {'info': 'opaque', 'sig': {'sig_value': 'opaque'}}, 'shape': SHAPES[0], 'damage': d, 'fmt': 'BASE64'}))
    if tier == 'thorough':
        for i, n in enumerate(names):
            for m in names[i + 1:]:
                for d in ('cut', 'more'):
                    out.append(('damaged', {'how': {n: 'opaque', m: 'opaque'}, 'shape': SHAPES[0], 'damage': d, 'fmt': 'decode'}))
    return out
