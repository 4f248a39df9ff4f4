"""C25: a certificate serial cannot be reused for different content."""
import base64

from checks import paref as P

REQUIRES = ['hgaa.services.pauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database', 'hgaa.schema.pauth', 'ladon.exceptions.service']
PRELOAD = ['hgaa.services.pauth']
ASSUMPTIONS = ['ideal RSA signatures and SHA-256 (C31)', 'all certificates are otherwise acceptable; the same certificate in another format may count as the same or as other content']
BOUNDS = {'quick': 'two certificates with any serials (160 bit) and any attribute values (65535 bytes), issuers, expiries; presented in two requests (the second up to 2000 s later, after the expiry of the first certificate or not) or in one; two requests over a pool of three certificates, two of which share a serial; three formats, also mixed',
          'thorough': 'same, histories of three requests'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 900
A1, A2 = '/aa/1', '/aa/2'
AUTH = [(A1, 0, 1), (A2, 1, 1)]


def snapshot(ctx, pa):
    return pa.stored()[1]


def unchanged(ctx, rows, serial, data):
    hit = [w for w in rows if bool(ctx.same(w['serial'], serial))]
    ctx.check(len(hit) == 1, 'stored once')
    if hit:
        ctx.check(ctx.same(bytes(hit[0]['certificate']), bytes(data)), 'the stored certificate is not replaced')
    return hit[0] if hit else None


def two(ctx, together, vary, fmt, other=None):
    """two certificates with any serials; other: format of the second one, if not the same"""
    fmts = [fmt, other or fmt]
    pa = P.PA(ctx, AUTH)
    serials, datas, diff = [], [], []
    for i in range(2):
        n = ctx.int('serial%d' % i, 0, 2 ** 160 - 1)
        how, k = {}, {}
        if vary == 'value':
            how = {'att0': {'att_value': 'opaque'}}
        elif vary == 'before':
            k['before'] = ctx.int('before%d' % i, P.NOW + 1, 2 ** 32 - 1)
        elif vary == 'issuer':
            j = ctx.pick('issuer%d' % i, [0, 1])
            k.update(uid=[A1, A2][j], key=j)
        c = P.cert(ctx, pa, 'c%d' % i, how=how, serial=n, **k)
        serials.append(n)
        datas.append(P.export(pa, c, fmts[i]))
        diff.append({'value': lambda: c.att_set[0].att_value, 'before': lambda: c.rev_rules.valid_before, 'issuer': lambda: c.issuer.uid}[vary]())
    same_serial = serials[0] == serials[1]
    if diff[0] is None or diff[1] is None:
        same = diff[0] is None and diff[1] is None
    else:
        same = ctx.same(diff[0], diff[1])
    f = [pa.ac.ExportFormat[x].value for x in fmts]
    if together:
        st, r = pa.start(pa.certset([pa.presented(d, 1, x) for d, x in zip(datas, f)]))
    else:
        st, r = pa.start(pa.certset([pa.presented(datas[0], 1, f[0])]))
        ctx.check(st == 'ok', 'the first session starts')
        before = snapshot(ctx, pa)
        st, r = pa.start(pa.certset([pa.presented(datas[1], 1, f[1])]))
    ctx.observe('outcome', st)
    rows = snapshot(ctx, pa)
    num = pa.number()
    if st == 'ok':
        ctx.check(ctx.Or(ctx.Not(same_serial), same), 'a serial in use is refused for other content')
        want = 1 if bool(same_serial) else 2
        ctx.check(len(rows) == want, 'no second copy is stored')
        for n, d in list(zip(serials, datas))[:want]:
            unchanged(ctx, rows, P.b64_160(n), d)
        ctx.check(num[0] == (1 if together else 2), 'number of sessions')
    else:
        # (the same certificate in another format may count as other content)
        ctx.check(ctx.And(same_serial, ctx.Or(ctx.Not(same), other is not None)), 'only a serial in use for other content is refused')
        ctx.check(num == ([0, 0, 0] if together else [1, 1, 1]), 'nothing is stored for a refused request')
        if not together:
            w = unchanged(ctx, rows, P.b64_160(serials[0]), datas[0])
            if w is not None and len(before) == 1:
                ctx.check(ctx.And(*[ctx.same(w[f], before[0][f]) for f in ('hash', 'serial')]) and w['format'] == before[0]['format'], 'the stored record is unchanged')


def later(ctx):
    """the second request at any later time, when the first certificate may have expired"""
    pa = P.PA(ctx, AUTH)
    b0 = ctx.int('before0', P.NOW + 1, P.NOW + 1000)
    data = [P.export(pa, P.cert(ctx, pa, 'c0', serial=5, before=b0)), P.export(pa, P.cert(ctx, pa, 'c1', serial=5, before=P.NOW + 9000))]
    st, r = pa.start(pa.certset([pa.presented(data[0])]))
    ctx.check(st == 'ok', 'the first session starts')
    gap = ctx.int('gap', 0, 2000)
    pa.world.set_now(4 * (P.NOW + gap))
    again = ctx.pick('again', [0, 1])
    st, r = pa.start(pa.certset([pa.presented(data[again])]))
    ctx.check((st == 'ok') == (again == 0 and bool(P.NOW + gap < b0)), 'refused for other content and when expired')
    rows = snapshot(ctx, pa)
    ctx.check(len(rows) == 1, 'one certificate is stored')
    unchanged(ctx, rows, P.b64_160(5), data[0])


def history(ctx, n):
    """requests over a pool of three certificates, of which the first two share a serial"""
    pa = P.PA(ctx, AUTH)
    pool = []
    for i in range(3):
        c = P.cert(ctx, pa, 'c%d' % i, serial=[5, 5, 6][i], how={'att0': {'att_value': 'opaque'}} if i == 0 else {}, before=P.NOW + 100 + i)
        pool.append(P.export(pa, c))
    have, sessions = {}, 0
    for k in range(n):
        sel = ctx.pick('sel%d' % k, [[0], [1], [2, 0], [2, 1], [0, 2, 0], [1, 2], [0, 1], [0, 2, 1], [2, 0, 1]])
        st, r = pa.start(pa.certset([pa.presented(pool[j]) for j in sel]))
        new, ok = dict(have), True
        for j in sel:
            s = [5, 5, 6][j]
            ok = ok and new.setdefault(s, j) == j
        ctx.check((st == 'ok') == ok, 'refused exactly if a serial is in use for other content')
        if ok:
            have, sessions = new, sessions + 1
        s, rows, l = pa.stored()
        ctx.check(len(s) == sessions and len(rows) == len(have), 'number of stored sessions and certificates')
        for serial in sorted(have):
            unchanged(ctx, rows, P.b64_160(serial), pool[have[serial]])


def cases(tier):
    out = []
    for t in (False, True):
        for v in ('value', 'before', 'issuer'):
            out.append(('two', {'together': t, 'vary': v, 'fmt': 'BYTES'}))
        for f in P.FORMATS[1:]:
            out.append(('two', {'together': t, 'vary': 'value', 'fmt': f}))
            out.append(('two', {'together': t, 'vary': 'before', 'fmt': 'BYTES', 'other': f}))
        out.append(('two', {'together': t, 'vary': 'value', 'fmt': 'BASE64', 'other': 'BYTES'}))
    out.append(('later', {}))
    out.append(('history', {'n': 2}))
    if tier == 'thorough':
        out.append(('history', {'n': 3}))
    return out
