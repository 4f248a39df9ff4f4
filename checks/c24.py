"""C24: sessions never outlive their certificates or one day and record both."""
import base64

from checks import paref as P
from checks.textref import edged, spelled

REQUIRES = ['hgaa.services.pauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database', 'hgaa.schema.pauth', 'ladon.exceptions.service']
PRELOAD = ['hgaa.services.pauth']
ASSUMPTIONS = ['ideal RSA signatures and SHA-256 (C31)', 'random session identifiers do not repeat',
               'serials and session identifiers are stored as base64 of 20 little-endian bytes']
BOUNDS = {'quick': 'up to three certificates with any validity bounds and issue times (32 bit), any clock, which may go on by 1 s at each of 2 readings; any serials and session identifiers (160 bit); any service identifier and address (text of up to 100 bytes); certificates in three formats with any attribute value (65535 bytes); repeated certificates; two sessions in a row',
          'thorough': 'same, four certificates, four readings, three sessions in a row'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 900
A1, A2 = '/aa/1', '/aa/2'
AUTH = [(A1, 0, 1), (A2, 1, 7)]
DAY = 86400


def least(ctx, xs):
    m = xs[0]
    for x in xs[1:]:
        m = ctx.If(x < m, x, m)
    return m


def record(ctx, c, data, fmt='BYTES'):
    return {'serial': c.info.serial, 'data': data, 'fmt': fmt, 'issued': c.info.issued, 'before': c.rev_rules.valid_before}


def check_session(ctx, pa, r, recs, t0, t1, row, service='/service/1', addr='10.1.2.3'):
    ctx.check(ctx.And(r.session_id >= 0, r.session_id < 2 ** 160), 'session identifier')
    ctx.check(ctx.And(r.start >= t0, r.start <= t1), 'starts at the current second')
    expiry = least(ctx, [x['before'] for x in recs])
    issued = least(ctx, [-x['issued'] for x in recs])
    ctx.check(r.valid_till == ctx.If(expiry < r.start + DAY, expiry, r.start + DAY), 'ends at the earlier of one day later and the earliest expiry')
    ctx.check(ctx.same(row['id'], P.b64_160(r.session_id)), 'stored identifier')
    ctx.check(row['session_start'] == r.start, 'stored start')
    ctx.check(row['session_valid_till'] == r.valid_till, 'stored end')
    ctx.check(row['cert_valid_till'] == expiry, 'stored earliest expiry')
    ctx.check(row['cert_start'] == -issued, 'stored latest issue time')
    ctx.check(ctx.same(row['service_uid'], service), 'stored service')
    ctx.check(ctx.same(row['initial_service_ip'], addr), 'stored address')


def check_certs(ctx, pa, rows, recs):
    """rows: the stored certificates; recs: distinct certificates, in order of their serials' presentation"""
    ctx.check(len(rows) == len(recs), 'number of stored certificates')
    for x in recs:
        serial = P.b64_160(x['serial'])
        hit = [w for w in rows if bool(ctx.same(w['serial'], serial))]
        ctx.check(len(hit) == 1, 'stored under its serial')
        if len(hit) != 1:
            continue
        w = hit[0]
        ctx.check(ctx.same(bytes(w['certificate']), bytes(x['data'])), 'stored unaltered')
        ctx.check(w['format'] == pa.ac.ExportFormat[x['fmt']].value, 'stored format')
        ctx.check(w['version'] == 1, 'stored version')
        ctx.check(w['valid_till'] == x['before'], 'stored expiry')
        ctx.check(ctx.same(w['hash'], base64.b64encode(pa.world.sha256(x['data'])).decode('ascii')), 'stored content hash')


def check_links(ctx, links, r, recs):
    mine = [l for l in links if bool(ctx.same(l['session_id'], P.b64_160(r.session_id)))]
    ctx.check(len(mine) == len(recs), 'number of links of the session')
    for x in recs:
        ctx.check(ctx.Or(False, *[ctx.same(l['ac_serial'], P.b64_160(x['serial'])) for l in mine]), 'certificate linked to the session')


def judge(ctx, pa, st, r, recs, t0, **k):
    ctx.check(st == 'ok', 'the session starts')
    if st != 'ok':
        return
    s, c, l = pa.stored()
    ctx.check(len(s) == 1, 'one session is stored')
    if s:
        check_session(ctx, pa, r, recs, t0, pa.world.now(), s[0], **k)
    check_certs(ctx, pa, c, recs)
    ctx.check(len(l) == len(recs), 'number of links')
    check_links(ctx, l, r, recs)


def times(ctx, n, ticks, issued):
    """any bounds, issue times and clock at which every certificate is valid"""
    q = ctx.int('now', 8, 4 * (2 ** 32 - 2 * DAY))
    pa = P.PA(ctx, AUTH, now=q, ticks=ticks)
    certs, recs = [], []
    for i in range(n):
        a = ctx.int('after%d' % i, 0, 2 ** 32 - 1)
        b = ctx.int('before%d' % i, 0, 2 ** 32 - 1)
        ctx.assume(ctx.And(4 * (a + 1) <= q, q + 4 * ticks < 4 * b))
        t = ctx.int('issued%d' % i, 0, 2 ** 32 - 1) if issued else P.NOW + 10 * ((i * 5 + 1) % 7)
        c = P.cert(ctx, pa, 'c%d' % i, [A1, A2][i % 2], i % 2, serial=1000 - i, issued=t, after=a, before=b)
        d = P.export(pa, c)
        certs.append(pa.presented(d))
        recs.append(record(ctx, c, d))
    t0 = pa.world.now()
    st, r = pa.start(pa.certset(certs))
    judge(ctx, pa, st, r, recs, t0)


def identity(ctx):
    """any session identifier, service and address"""
    pa = P.PA(ctx, AUTH, rand=None)
    c = P.cert(ctx, pa)
    d = P.export(pa, c)
    service, addr = edged(ctx, 'service', 100), edged(ctx, 'addr', 100, '%A', '%A')
    st, r = pa.start(pa.certset([pa.presented(d)]), service, addr)
    judge(ctx, pa, st, r, [record(ctx, c, d)], P.NOW, service=service, addr=addr)


def content(ctx, fmts):
    """any serials and contents, in any format"""
    pa = P.PA(ctx, AUTH)
    certs, recs = [], []
    for i, f in enumerate(fmts):
        serial = ctx.int('serial%d' % i, 0, 2 ** 160 - 1)
        for x in recs:
            ctx.assume(serial != x['serial'])
        c = P.cert(ctx, pa, 'c%d' % i, how={'att0': {'att_value': 'opaque'}}, serial=serial, before=P.NOW + 100 + i)
        d = P.export(pa, c, f)
        certs.append(pa.presented(d, 1, pa.ac.ExportFormat[f].value))
        recs.append(record(ctx, c, d, f))
    st, r = pa.start(pa.certset(certs))
    judge(ctx, pa, st, r, recs, P.NOW)


def repeated(ctx, n):
    """the same certificate several times among others"""
    pa = P.PA(ctx, AUTH)
    made = []
    for i in range(2):
        c = P.cert(ctx, pa, 'c%d' % i, [A1, A2][i], i, serial=40 + i, issued=P.NOW - 50 - i, before=P.NOW + 500 - 7 * i)
        made.append(record(ctx, c, P.export(pa, c)))
    order = [ctx.pick('which%d' % k, [0, 1]) for k in range(n)]
    st, r = pa.start(pa.certset([pa.presented(made[k]['data']) for k in order]))
    judge(ctx, pa, st, r, [made[k] for k in sorted(set(order))], P.NOW)


def history(ctx, n):
    """several sessions with certificates from a pool"""
    pa = P.PA(ctx, AUTH)
    pool = []
    for i in range(2):
        c = P.cert(ctx, pa, 'c%d' % i, [A1, A2][i], i, serial=40 + i, issued=P.NOW - 50 - i, before=ctx.int('before', P.NOW + 100, 2 ** 32 - 1) if i == 0 else P.NOW + 2 * DAY)
        pool.append(record(ctx, c, P.export(pa, c)))
    used, starts = set(), []
    for k in range(n):
        now = P.NOW + 20 * k
        pa.world.set_now(4 * now)
        sel = ctx.pick('sel%d' % k, [[0], [1], [0, 1], [1, 0]])
        service = '/service/%d' % k
        st, r = pa.start(pa.certset([pa.presented(pool[j]['data']) for j in sel]), service)
        ctx.check(st == 'ok', 'the session starts')
        if st != 'ok':
            return
        used |= set(sel)
        starts.append((r, sel, now, service))
    s, c, l = pa.stored()
    ctx.check(len(s) == n, 'number of sessions')
    ctx.check(len(l) == sum(len(x[1]) for x in starts), 'number of links')
    check_certs(ctx, pa, c, [pool[j] for j in sorted(used)])
    for r, sel, now, service in starts:
        row = [x for x in s if x['id'] == P.b64_160(r.session_id)]
        ctx.check(len(row) == 1, 'stored once')
        if row:
            check_session(ctx, pa, r, [pool[j] for j in sel], now, now, row[0], service)
        check_links(ctx, l, r, [pool[j] for j in sel])


def cases(tier):
    q = tier == 'quick'
    out = [('times', {'n': 1, 'ticks': 2 if q else 4, 'issued': True}), ('times', {'n': 2, 'ticks': 0, 'issued': True}), ('times', {'n': 3, 'ticks': 0, 'issued': False}),
           ('times', {'n': 2, 'ticks': 2, 'issued': False})]
    if not q:
        out += [('times', {'n': 3, 'ticks': 0, 'issued': True}), ('times', {'n': 4, 'ticks': 0, 'issued': False})]
    out += [('identity', {})]
    out += [('content', {'fmts': f}) for f in (['BYTES'], ['BASE64'], ['BASE64FULL'], ['BYTES', 'BASE64'])]
    out += [('repeated', {'n': n}) for n in (2, 3)]
    out += [('history', {'n': 2 if q else 3})]
    return out
