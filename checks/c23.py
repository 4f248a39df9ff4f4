"""C23: sessions start only from valid certificates of trusted authorities."""
from checks import paref as P

REQUIRES = ['hgaa.services.pauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database', 'hgaa.schema.pauth', 'ladon.exceptions.service']
PRELOAD = ['hgaa.services.pauth']
ASSUMPTIONS = ['ideal RSA signatures and SHA-256 (C31)', 'a certificate presented within the first second after its valid-after time may be accepted or refused',
               'a certificate without signature, or that does not decode, may be refused with any client fault']
BOUNDS = {'quick': 'up to two certificates, up to five with at most one that is not in order; any registered and presented identifiers of two characters; any announced version and format number; any trust level; any issuer identifier (text of up to 200 bytes) against two registered ones; two keys; any validity bounds, issue time and clock (32 bit, quarter seconds); any attribute value and name (65535 bytes); five fields changed after signing from any to any value; truncations and trailing bytes of any length at the end; three formats',
          'thorough': 'same, three certificates'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 900
A1, A2 = '/aa/1', '/aa/2'


def judge(ctx, pa, st, r, must, may=None, n=1, new=None):
    ctx.observe('outcome', st)
    may = must if may is None else may
    num = pa.number()
    if st == 'ok':
        ctx.check(may, 'a session starts only if everything is in order')
        ctx.check(num[0] == 1 and num[1] == (n if new is None else new), 'session and certificates are stored')
    else:
        ctx.check(ctx.Not(must), 'a request in order is not refused')
        ctx.check(num == [0, 0, 0], 'nothing is stored for a refused request')


def announced(ctx, fmt):
    """any announced version and format"""
    pa = P.PA(ctx, [(A1, 0, 1)])
    v, f = ctx.int('version', -3, 300), ctx.int('format', -3, 300)
    data = P.export(pa, P.cert(ctx, pa), fmt)
    F = pa.ac.ExportFormat
    for o in P.FORMATS:
        if o != fmt:                            # data of another supported format than announced: see junk
            ctx.assume(f != F[o].value)
    st, r = pa.start(pa.certset([pa.presented(data, v, f)]))
    judge(ctx, pa, st, r, ctx.And(v == 1, f == F[fmt].value))


def trust(ctx, n):
    """any trust levels, authorities and keys"""
    t = [ctx.int('trust%d' % i) for i in range(2)]
    pa = P.PA(ctx, [(A1, 0, t[0]), (A2, 1, t[1])])
    certs, ok = [], True
    for i in range(n):
        who = ctx.pick('who%d' % i, [0, 1, 2])
        key = ctx.pick('key%d' % i, [0, 1])
        certs.append(pa.presented(P.export(pa, P.cert(ctx, pa, 'c%d' % i, [A1, A2, '/aa/3'][who], key, serial=77 + i))))
        ok = ctx.And(ok, who < 2 and key == who and t[who] > 0)
    st, r = pa.start(pa.certset(certs))
    judge(ctx, pa, st, r, ok, n=n)


def uid(ctx, chars):
    """any issuer identifier"""
    pa = P.PA(ctx, [(A1, 0, 1), ('b', 0, 0)])
    if chars == 'around':
        u = ctx.str('pre', 1, 'a/1bA .%_\x00') + ctx.pick('middle', [A1, A1.upper(), A1[:-1], A1[1:]]) + ctx.str('post', 1, 'a/1bA .%_\x00')
    else:
        u = ctx.str('uid', 5, 'a/1bA ') if chars else ctx.text('uid', max_nb=200)
    st, r = pa.start(pa.certset([pa.presented(P.export(pa, P.cert(ctx, pa, uid=u)))]))
    judge(ctx, pa, st, r, ctx.same(u, A1))


def uids(ctx, n):
    """any identifier registered, any identifier presented"""
    reg = ctx.str('reg', n, 'aA/ ')
    pa = P.PA(ctx, [(reg, 0, 1)])
    u = ctx.str('uid', n, 'aA/ ')
    st, r = pa.start(pa.certset([pa.presented(P.export(pa, P.cert(ctx, pa, uid=u)))]))
    judge(ctx, pa, st, r, ctx.same(u, reg))


def times(ctx, n):
    """any validity bounds and clock"""
    q = ctx.int('now', 0, 4 * (2 ** 32 - 90000))
    pa = P.PA(ctx, [(A1, 0, 1)], now=q)
    certs, must, may = [], True, True
    for i in range(n):
        a, b = ctx.int('after%d' % i, 0, 2 ** 32 - 1), ctx.int('before%d' % i, 0, 2 ** 32 - 1)
        c = P.cert(ctx, pa, 'c%d' % i, serial=77 + i, issued=ctx.int('issued%d' % i, 0, 2 ** 32 - 1) if n == 1 else 5, after=a, before=b)
        certs.append(pa.presented(P.export(pa, c)))
        x, y = P.in_time(ctx, q, a, b)
        must, may = ctx.And(must, x), ctx.And(may, y)
    st, r = pa.start(pa.certset(certs))
    judge(ctx, pa, st, r, must, may, n)


def signature(ctx, fmt):
    """who signed; the key in either encoding; content of any kind"""
    pa = P.PA(ctx, [(A1, 0, 3)])
    form = ctx.pick('form', ['pem', 'der'])
    sign = ctx.pick('sign', [0, 1, -1])
    key = ctx.pick('key', [0, 1])
    c = P.cert(ctx, pa, key=key, sign=sign, form=form, how={'att0': {'att_value': 'opaque', 'att_name': 'opaque'}})
    st, r = pa.start(pa.certset([pa.presented(P.export(pa, c, fmt), 1, pa.ac.ExportFormat[fmt].value)]))
    judge(ctx, pa, st, r, key == 0 and sign == 0)


def changed(ctx, what):
    """a field changed after signing"""
    pa = P.PA(ctx, [(A1, 0, 3)])
    c = P.cert(ctx, pa, how={'att0': {'att_value': 'opaque'}})
    if what == 'att_value':
        old, new = c.att_set[0].att_value, ctx.text('new', max_nb=1000, min_n=1)
        c.att_set[0].att_value = new
    elif what == 'serial':
        old, new = c.info.serial, ctx.int('new', 0, 2 ** 160 - 1)
        c.info.serial = new
    elif what == 'valid_before':
        old, new = c.rev_rules.valid_before, ctx.int('new', P.NOW + 1, 2 ** 32 - 1)
        c.rev_rules.valid_before = new
    elif what == 'holder':
        old, new = c.holder.uid, ctx.text('new', max_nb=100)
        c.holder.uid = new
    elif what == 'sig':
        old, new = c.signature.sig_value, ctx.data('new', max_n=200, min_n=1)
        c.signature.sig_value = new
    same = ctx.same(old, new) if old is not None else False
    st, r = pa.start(pa.certset([pa.presented(P.export(pa, c))]))
    judge(ctx, pa, st, r, same)


def length(ctx, fmt):
    """bytes missing at the end, or more bytes"""
    pa = P.PA(ctx, [(A1, 0, 3)])
    data = P.export(pa, P.cert(ctx, pa))
    if ctx.pick('cut', [True, False]):
        k = ctx.int('n', 1, 40)
        data = data[:len(data) - k]
        ok = False
    else:
        more = ctx.data('more', 1000)
        data = data + more
        ok = len(more) == 0
    st, r = pa.start(pa.certset([pa.presented(data)]))
    judge(ctx, pa, st, r, ok)


def junk(ctx):
    """no certificate at all"""
    pa = P.PA(ctx, [(A1, 0, 3)])
    f = ctx.pick('format', [1, 2, 3, 4, 5])
    data = ctx.pick('data', [b'', b'\x00', b'\xff' * 60, b'no certificate', b'a\nb\nc\n\nd', 'é\nb\nc\n'.encode('latin-1')])
    st, r = pa.start(pa.certset([pa.presented(data, 1, f)]))
    judge(ctx, pa, st, r, False)


def registered(ctx):
    """the key registered is no key"""
    pa = P.PA(ctx, [(A1, ctx.pick('key', ['', 'no key', '-----BEGIN PUBLIC KEY-----\n-----END PUBLIC KEY-----']), 3)])
    st, r = pa.start(pa.certset([pa.presented(P.export(pa, P.cert(ctx, pa)))]))
    judge(ctx, pa, st, r, False)


def none(ctx):
    """no certificates"""
    pa = P.PA(ctx, [(A1, 0, 3)])
    s = ctx.pick('set', [0, 1, 2])
    st, r = pa.start([None, pa.certset(None), pa.certset([])][s])
    judge(ctx, pa, st, r, False)


def mixed(ctx, n):
    """one bad certificate among good ones"""
    pa = P.PA(ctx, [(A1, 0, 1), (A2, 1, 1)])
    certs, ok = [], True
    for i in range(n):
        kind = ctx.pick('kind%d' % i, ['good', 'expired', 'forged', 'stranger', 'version', 'garbage'])
        c = P.cert(ctx, pa, 'c%d' % i, '/aa/9' if kind == 'stranger' else [A1, A2][i % 2], i % 2, serial=70 + i, before=P.NOW if kind == 'expired' else P.NOW + 50,
                   sign=1 - i % 2 if kind == 'forged' else None)
        data = b'garbage' if kind == 'garbage' else P.export(pa, c)
        certs.append(pa.presented(data, 2 if kind == 'version' else 1))
        ok = ok and kind == 'good'
    st, r = pa.start(pa.certset(certs))
    judge(ctx, pa, st, r, ok, n=n)


def many(ctx, n):
    """one bad certificate anywhere among several good ones"""
    pa = P.PA(ctx, [(A1, 0, 1), (A2, 1, 1)])
    kind = ctx.pick('kind', ['good', 'expired', 'forged', 'stranger', 'version', 'garbage'])
    at = ctx.pick('at', list(range(n))) if kind != 'good' else -1
    certs = []
    for i in range(n):
        k = kind if i == at else 'good'
        c = P.cert(ctx, pa, 'c%d' % i, '/aa/9' if k == 'stranger' else [A1, A2][i % 2], i % 2, serial=70 + i, before=P.NOW if k == 'expired' else P.NOW + 50,
                   sign=1 - i % 2 if k == 'forged' else None)
        certs.append(pa.presented(b'garbage' if k == 'garbage' else P.export(pa, c), 2 if k == 'version' else 1))
    st, r = pa.start(pa.certset(certs))
    judge(ctx, pa, st, r, kind == 'good', n=n)


def history(ctx):
    """refused and accepted requests one after the other; trust withdrawn in between"""
    pa = P.PA(ctx, [(A1, 0, 1)])
    good = P.export(pa, P.cert(ctx, pa, how={'att0': {'att_value': 'opaque'}}))
    bad = P.export(pa, P.cert(ctx, pa, 'd', serial=78, sign=1))
    total = 0
    trust = 1
    for k in range(3):
        act = ctx.pick('act%d' % k, ['good', 'bad', 'trust'])
        if act == 'trust':
            trust = ctx.pick('trust%d' % k, [0, 2])
            s = pa.session()
            s.query(pa.sc.AttributeAuthority).filter(pa.sc.AttributeAuthority.uid == A1).first().trust_level = trust
            s.commit()
            s.close()
            continue
        st, r = pa.start(pa.certset([pa.presented(good if act == 'good' else bad)]))
        total += act == 'good' and trust > 0
        ctx.check((st == 'ok') == (act == 'good' and trust > 0), 'accepted exactly if the certificate is good and its authority trusted now')
        ctx.check(pa.number() == [total, min(total, 1), total], 'only accepted requests are stored')


def cases(tier):
    q = tier == 'quick'
    out = [('announced', {'fmt': f}) for f in P.FORMATS]
    out += [('trust', {'n': n}) for n in ((1, 2) if q else (1, 2, 3))]
    out += [('uid', {'chars': c}) for c in (False, True, 'around')]
    out += [('times', {'n': n}) for n in ((1, 2) if q else (1, 2, 3))]
    out += [('signature', {'fmt': f}) for f in P.FORMATS]
    out += [('changed', {'what': w}) for w in ('att_value', 'serial', 'valid_before', 'holder', 'sig')]
    out += [('length', {'fmt': 'BYTES'}), ('junk', {}), ('registered', {}), ('none', {}), ('mixed', {'n': 2 if q else 3}), ('history', {})]
    out += [('uids', {'n': n}) for n in (1, 2)] + [('many', {'n': n}) for n in (3, 5)]
    return out
