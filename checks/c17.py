"""C17: a signature verifies only for exactly the certificate content that was signed."""
from checks import certref as R

REQUIRES = ['hgaa.attcert']
ASSUMPTIONS = ['ideal RSA and SHA-256: a signature equals another only if key and signed bytes are equal (the strength of the primitives is C31)',
               'optional fields are absent or not empty; an issuer key that is no RSA key at all may make verification raise instead of giving False',
               'opaque texts are valid Unicode, their characters are not inspected; byte strings likewise']
BOUNDS = {'quick': 'certificates with up to 2 attributes and extensions; every field changed from any value to any other (integers in range, texts and byte strings up to 65535 bytes, or absent), pairs of neighbouring text fields with up to 2 characters each; parts added, removed, exchanged; two keys; direct and after export and import in three formats',
          'thorough': 'same, with 3 characters'}
BUDGET_QUICK = 400
BUDGET_THOROUGH = 900
ATTR = {'issuer': 'issuer', 'holder': 'holder', 'info': 'info', 'rev': 'rev_rules', 'del': 'del_rules'}
FORMATS = ['BYTES', 'BASE64', 'BASE64FULL']


def cert(ctx, how, atts=1, exts=1, dele=True, key=0):
    w = ctx.world()
    p = R.parts(ctx, 'c', how, atts, exts, dele, False)
    p['issuer'].values['pub_key'] = p['issuer'].obj.pub_key = w.der(key)
    return p, R.Cert(p).build(ctx)


def verdict(ctx, c):
    v = c.verify_signature()
    ctx.check(v is True or v is False, 'verification gives True or False')
    return v


def accepts(ctx, how, shape, fmt):
    ac, w = ctx.imp('hgaa.attcert'), ctx.world()
    i = ctx.pick('key', [0, 1])
    p, c = cert(ctx, how, key=i, **shape)
    F = ac.ExportFormat[fmt]
    algo = ctx.pick('algo', ['RSASSA-PKCS1-v1_5:SHA256', None])
    k = {} if algo is None else {'sig_algo': algo}
    if ctx.pick('by', ['sign', 'export']) == 'sign':
        c.sign(w.key(i), **k)
        ctx.check(verdict(ctx, c), 'verifies after signing')
        out = c.export_ac(F)
    else:
        out = c.export_ac(F, True, w.key(i), **k)
    ctx.check(verdict(ctx, c), 'verifies after export')
    R.check_section(ctx, 'issuer', p['issuer'].values, c.issuer, 'signing leaves ')
    ctx.check(c.signature.sig_algo == 'RSASSA-PKCS1-v1_5:SHA256', 'names the signature algorithm')
    ctx.check(w.verify(i, c._encode_body(), c.signature.sig_value) if hasattr(c, '_encode_body') else True, 'signed by the key')
    back = ac.AttributeCertificate.import_ac(out, F, True)
    p['sig'] = R.Sec('sig', None, {'sig_algo': c.signature.sig_algo, 'sig_value': c.signature.sig_value}, True)
    R.check_cert(ctx, p, back, 'imported ')
    ctx.check(verdict(ctx, back), 'the imported certificate verifies')


def rejects(ctx, ac, c, fmt, raises=False):
    """c must not verify, nor import"""
    try:
        v = verdict(ctx, c)
    except ValueError:
        if not raises:
            raise
        v = False
    ctx.check(not v, 'does not verify')
    out = c.export_ac(ac.ExportFormat[fmt])
    try:
        ac.AttributeCertificate.import_ac(out, ac.ExportFormat[fmt], True)
        ok = False
    except Exception:
        ok = True
    ctx.check(ok, 'import with verification raises')


def target(c, sec):
    if sec.startswith('att'):
        return c.att_set[int(sec[3:])]
    if sec.startswith('ext'):
        return c.extensions[int(sec[3:])]
    return getattr(c, ATTR[sec])


def other_value(ctx, tag, sec, field, how, old, kind):
    new, fits = R.field_value(ctx, tag, field, kind, how, False, 1)
    ctx.assume(fits)
    return new


def changed(ctx, sec, field, fmt, mode='opaque'):
    """One field changed after signing."""
    ac, w = ctx.imp('hgaa.attcert'), ctx.world()
    kind = dict(R.SECTIONS[sec.rstrip('01')][1])[field]
    p, c = cert(ctx, {sec: {field: mode}}, 2, 2)
    c.sign(w.key(0))
    ctx.check(verdict(ctx, c), 'verifies before the change')
    t = target(c, sec)
    old = getattr(t, field)
    new, fits = R.field_value(ctx, 'new', field, kind, mode, False, 1)
    ctx.assume(fits)
    ctx.assume(ctx.Not(R.same_value(ctx, kind, old, new)))
    setattr(t, field, new)
    rejects(ctx, ac, c, fmt, field == 'pub_key' and sec == 'issuer')
    setattr(t, field, old)
    ctx.check(verdict(ctx, c), 'verifies with the signed value')


def changed_two(ctx, sec, f, g, n=2):
    """Two neighbouring text fields of a section, so that characters could move from one to the other."""
    ac, w = ctx.imp('hgaa.attcert'), ctx.world()
    p, c = cert(ctx, {}, 1, 1)
    t = target(c, sec)
    dom = 'ab'
    kinds = dict(R.SECTIONS[sec.rstrip('01')][1])
    text = lambda tag, k: ctx.str(tag, n, dom, 1) if not k.startswith('bytes') else ctx.str(tag, n, dom, 1).encode('utf-8')
    setattr(t, f, text('f', kinds[f]))
    setattr(t, g, text('g', kinds[g]))
    c.sign(w.key(0))
    a, b = getattr(t, f), getattr(t, g)
    setattr(t, f, text('f2', kinds[f]))
    setattr(t, g, text('g2', kinds[g]))
    v = verdict(ctx, c)
    ctx.check(bool(v) == bool(ctx.And(ctx.same(a, getattr(t, f)), ctx.same(b, getattr(t, g)))), 'verifies exactly if neither field changed')


def parts_changed(ctx, what, fmt, key):
    """Parts added, removed, exchanged, replaced."""
    ac, w = ctx.imp('hgaa.attcert'), ctx.world()
    list_name, sec = ('att_set', 'att') if key == 'att' else ('extensions', 'ext')
    field = 'att_value' if key == 'att' else 'extra_bytes'
    idf = 'att_id' if key == 'att' else 'eid'
    n = ctx.pick('n', [0, 1, 2]) if what == 'add' else (ctx.pick('n', [1, 2]) if what == 'remove' else 2)
    k = dict(atts=n, exts=1) if key == 'att' else dict(atts=1, exts=n)
    p, c = cert(ctx, {sec + '0': {field: 'opaque'}, sec + '1': {field: 'opaque', idf: 'opaque'}}, **k)
    c.sign(w.key(0))
    ctx.check(verdict(ctx, c), 'verifies before the change')
    l = list(getattr(c, list_name))
    if what == 'add':
        s = R.section(ctx, 'added', sec, {field: 'opaque', idf: 'opaque'}, False, 1)
        l.insert(ctx.pick('at', list(range(n + 1))), s.obj)
    elif what == 'remove':
        del l[ctx.pick('at', list(range(n)))]
    elif what == 'exchange':
        ctx.assume(ctx.Not(R.same_section(ctx, sec, p[key + 's'][0].values, l[1])))
        l = [l[1], l[0]]
    elif what == 'double':
        ctx.assume(ctx.Not(R.same_section(ctx, sec, p[key + 's'][0].values, l[1])))
        l = [l[0], l[0]]
    setattr(c, list_name, l)
    rejects(ctx, ac, c, fmt)


def rules(ctx, fmt):
    """Delegation rules added or removed"""
    ac, w = ctx.imp('hgaa.attcert'), ctx.world()
    there = ctx.pick('there', [True, False])
    p, c = cert(ctx, {'rev': {'url': 'opaque'}}, 1, 1, dele=there)
    c.sign(w.key(0))
    ctx.check(verdict(ctx, c), 'verifies before the change')
    if there:
        c.del_rules = ctx.pick('none', [None, ac.ACDelegationRules(None)])
    else:
        c.del_rules = ac.ACDelegationRules(ctx.data('rules', 65535, 1))
    rejects(ctx, ac, c, fmt)


def wrong_signature(ctx, what, fmt):
    ac, w = ctx.imp('hgaa.attcert'), ctx.world()
    p, c = cert(ctx, {'info': 'opaque', 'holder': {'uid': 'opaque', 'name': 'opaque'}})
    c.sign(w.key(0))
    ctx.check(verdict(ctx, c), 'verifies before the change')
    if what == 'other key':
        c.sign(w.key(1))
    elif what == 'issuer key':
        c.issuer.pub_key = w.der(1)
    elif what == 'signed by the named key':         # the same certificate, claimed by another issuer key, re-signed with the first
        c.issuer.pub_key = w.der(1)
        c.sign(w.key(0))
    elif what == 'bytes':
        c.signature.sig_value = ctx.data('sig', 65535, 1)
    elif what == 'part':
        s = c.signature.sig_value
        k = ctx.int('k', 0, 3)
        c.signature.sig_value = s[:len(s) - 1 - k]
    elif what == 'more':
        c.signature.sig_value = c.signature.sig_value + b'\0'
    elif what == 'other':                             # signature of another certificate by the same key
        q = R.parts(ctx, 'd', {'info': 'opaque'}, 1, 1, True, False)
        q['issuer'].obj.pub_key = w.der(0)
        d = R.Cert(q).build(ctx)
        d.sign(w.key(0))
        ctx.assume(ctx.Not(ctx.And(R.same_section(ctx, 'info', p['info'].values, d.info), R.same_section(ctx, 'holder', p['holder'].values, d.holder))))
        c.signature = d.signature
    rejects(ctx, ac, c, fmt)


def missing(ctx, what):
    ac, w = ctx.imp('hgaa.attcert'), ctx.world()
    p, c = cert(ctx, {'info': 'opaque'})
    c.sign(w.key(0))
    if what == 'signature':
        c.signature = None
    elif what == 'issuer':
        c.issuer = None
    elif what.startswith('sig_'):
        setattr(c.signature, what, None)
    else:
        setattr(c.issuer, what, None)
    ctx.check(not verdict(ctx, c), 'does not verify')
    if what == 'signature':
        fmt = ctx.pick('fmt', FORMATS)
        rejects(ctx, ac, c, fmt)


def never_signed(ctx, fmt):
    """Any signature bytes and algorithm on a certificate nobody signed; import without verification still returns it."""
    ac, w = ctx.imp('hgaa.attcert'), ctx.world()
    p, c = cert(ctx, {'info': 'opaque'})
    c.signature = ac.ACSignature(ctx.pick('algo', ['RSASSA-PKCS1-v1_5:SHA256', 'none']), ctx.data('sig', 65535, 1))
    F = ac.ExportFormat[fmt]
    ac.AttributeCertificate.import_ac(c.export_ac(F), F)
    rejects(ctx, ac, c, fmt)


def need_key(ctx):
    """Signing without a key is refused, and leaves the certificate without a signature."""
    ac = ctx.imp('hgaa.attcert')
    p, c = cert(ctx, {'info': 'opaque'})
    fmt = ctx.pick('fmt', FORMATS)
    try:
        c.export_ac(ac.ExportFormat[fmt], True)
        ok = False
    except Exception:
        ok = True
    ctx.check(ok, 'refused')
    ctx.check(not verdict(ctx, c), 'not signed')


def cases(tier):
    out = []
    n = 0
    full = dict(atts=1, exts=1, dele=True)
    for i, sec in enumerate(['issuer', 'holder', 'info', 'att0', 'rev', 'del', 'ext0']):
        out.append(('accepts', {'how': {sec: 'opaque'}, 'shape': full, 'fmt': FORMATS[i % 3]}))
        if tier == 'thorough':
            out.append(('accepts', {'how': {sec: 'opaque'}, 'shape': full, 'fmt': FORMATS[(i + 1) % 3]}))
            out.append(('accepts', {'how': {sec: 'opaque'}, 'shape': full, 'fmt': FORMATS[(i + 2) % 3]}))
    for s in (dict(atts=0, exts=0, dele=False), dict(atts=None, exts=None, dele=False), dict(atts=2, exts=2, dele=True)):
        for f in FORMATS:
            out.append(('accepts', {'how': {'rev': {'url': 'opaque'}}, 'shape': s, 'fmt': f}))
    for sec in ['issuer', 'holder', 'info', 'att0', 'att1', 'rev', 'del', 'ext0', 'ext1']:
        fields = R.SECTIONS[sec.rstrip('01')][1]
        for f, kind in fields:
            n += 1
            out.append(('changed', {'sec': sec, 'field': f, 'fmt': FORMATS[n % 3]}))
            if kind.startswith('text') and sec[-1] != '1':
                out.append(('changed', {'sec': sec, 'field': f, 'fmt': FORMATS[n % 3], 'mode': 'chars'}))
        names = [f for f, kind in fields if kind[:4] in ('text', 'byte')]
        for i, f in enumerate(names):
            for g in names[i + 1:]:
                if sec[-1] != '1' and not (sec == 'issuer' and f == 'pub_key'):
                    out.append(('changed_two', {'sec': sec, 'f': f, 'g': g, 'n': 2 if tier == 'quick' else 3}))
    for key in ('att', 'ext'):
        for i, what in enumerate(['add', 'remove', 'exchange', 'double']):
            out.append(('parts_changed', {'what': what, 'fmt': FORMATS[i % 3], 'key': key}))
    for f in FORMATS:
        out.append(('rules', {'fmt': f}))
        out.append(('never_signed', {'fmt': f}))
    for i, what in enumerate(['other key', 'issuer key', 'signed by the named key', 'bytes', 'part', 'more', 'other']):
        out.append(('wrong_signature', {'what': what, 'fmt': FORMATS[i % 3]}))
    for what in ('signature', 'issuer', 'sig_value', 'sig_algo', 'pub_key', 'key_algo'):
        out.append(('missing', {'what': what}))
    out.append(('need_key', {}))
    return out
