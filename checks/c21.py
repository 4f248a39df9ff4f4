"""C21: issued certificates bind requester key, authority and configured lifetime; the one returned is the one stored."""
from checks import aaref as A
from checks import certref as R
from checks.textref import edged, spelled

REQUIRES = ['hgaa.services.aauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database', 'hgaa.schema.aauth', 'ladon.exceptions.service']
PRELOAD = ['hgaa.services.aauth']
ASSUMPTIONS = ['ideal RSA signatures (C31)', 'random serials do not repeat',
               'the holder identifier is the authority identifier, "/user/" and the user name; letter case of the name is not significant']
BOUNDS = {'quick': 'configured identifier, name and revocation URL: any texts of up to 60 bytes (not blank); presented key: any bytes up to 2000; key algorithm: any text of up to 60 bytes, any size of 1..65536 bits; clock: any quarter second of second 10 to 59 of four minutes in 2001, 2020, 2038 and 2096, that goes on by up to 1 s at each of the first 3 readings; any 160-bit serial; any lifetime of 1, 4 or 8 digits; two authority keys',
          'thorough': 'same, three requests in a row, the clock goes on at each of the first 6 readings'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 900


def lower(s):
    return s.lower()


def judge(ctx, aa, st, r, data, want, t0=None, t1=None, key=0):
    """want: the expected fields that are fixed"""
    ctx.check(st == 'ok', 'a certificate is issued')
    if st != 'ok':
        return None
    w = aa.world
    ctx.check(r.version == 1 and int(r.format) == aa.ac.ExportFormat.BYTES.value, 'version and format announced')
    c = aa.certificate(data)
    R.check_section(ctx, 'issuer', want['issuer'], c.issuer)
    h = want['holder']
    for f in ('pub_key', 'key_algo'):
        ctx.check(R.same_value(ctx, 'bytes' if f == 'pub_key' else 'text', h[f], getattr(c.holder, f)), 'holder.' + f)
    pre, name = h['uid']
    ctx.check(ctx.Or(*[ctx.same(c.holder.uid, pre + n) for n in (name, name.lower())]), 'holder.uid')
    ctx.check(c.holder.name is not None and c.holder.name.lower() == name.lower(), 'holder.name')
    ctx.check(c.info.version == 1, 'certificate version')
    ctx.check(ctx.And(c.info.serial >= 0, c.info.serial < 2 ** 160), 'serial')
    ctx.check(ctx.And(c.info.issued >= t0, c.info.issued <= t1), 'issue time')
    ctx.check(c.rev_rules.valid_after == c.info.issued, 'valid from the issue time')
    ctx.check(c.rev_rules.valid_before == c.info.issued + want['length'], 'configured lifetime')
    ctx.check(R.same_value(ctx, 'text?', want['rev_url'], c.rev_rules.url), 'revocation URL')
    sig = c.signature
    ctx.check(sig is not None and bool(sig.sig_value), 'signed')
    ctx.check(c.verify_signature(), "verifies under the authority's key")
    return c


def expected(aa, ctx, key=0, user='ab', pub=b'the public key', cipher='RSA', size=2048):
    v = aa.conf
    url = 'http://%s:%s/AttributeAuthority/jsonwsp/' % (v.get('HOST', 'example.org'), v.get('PORT', '8888'))
    return {'issuer': {'pub_key': aa.world.pem(key), 'key_algo': 'RSA[%d]' % aa.world.key(key).size_in_bits(), 'uid': v['A_URI'], 'name': v['AAUTH_ID'], 'url': url},
            'holder': {'pub_key': pub, 'key_algo': cipher + '[' + str(size) + ']', 'uid': (v['A_URI'] + '/user/', user)},
            'length': int(v['AC_EXPIRE_LENGTH']), 'rev_url': v['REV_URI']}


def stored(ctx, aa, before, data):
    w = aa.world.written()
    ctx.check(len(w) == before + 1, 'one certificate is stored')
    if len(w) == before + 1:
        ctx.check(ctx.same(bytes(w[-1]), bytes(data)), 'the certificate stored is the one returned')


USERS = [(1, 'ab', 'pw1'), (2, 'b', 'pw2')]
NOW = 1600000000
MINUTES = [10 ** 9 // 60, 1600000000 // 60, 2 ** 31 // 60, 4 * 10 ** 9 // 60]


def authority(ctx, what):
    """any configured identity"""
    conf = {}
    for f in what:
        conf[f] = spelled(ctx, f, 60)
    if 'HOST' in what:
        pass
    key = ctx.pick('key', [0, 1])
    aa = A.AA(ctx, USERS, key=key, conf=conf)
    st, r, data = aa.request(aa.credentials('ab', 'pw1'))
    judge(ctx, aa, st, r, data, expected(aa, ctx, key), NOW, NOW, key)
    stored(ctx, aa, 0, data)


def url(ctx):
    """host and port; no host means localhost; without a revocation URL there is a default one"""
    host, port = ctx.pick('host', ['example.org', '', ' ', '10.0.0.1']), ctx.pick('port', ['8888', '80'])
    rev = ctx.pick('rev', ['http://rev/', '', '  '])
    aa = A.AA(ctx, USERS, conf={'HOST': host, 'PORT': port, 'REV_URI': rev})
    st, r, data = aa.request(aa.credentials('ab', 'pw1'))
    aa.conf['HOST'] = host.strip() or 'localhost'
    e = expected(aa, ctx)
    if rev is None or not rev.strip():
        e['rev_url'] = 'http://%s:%s/AttributeAuthority/jsonwsp/revocation_list' % (aa.conf['HOST'], port)
    judge(ctx, aa, st, r, data, e, NOW, NOW)


def holder(ctx, which):
    """any presented key"""
    aa = A.AA(ctx, USERS)
    pub = ctx.data('pub', 2000) if 'pub' in which else b'the key'
    if 'bytes' in which:
        pub = ctx.str('pub', 2, 'byte').encode('latin-1')
    elif 'pem' in which:
        pub = ctx.pick('before', [b'', b'\n', b' ']) + ctx.pick('form', [aa.world.pem(1), aa.world.der(1)]) + ctx.pick('after', [b'', b'\n', b'\r\n', b'\x00'])
    cipher = edged(ctx, 'cipher', 60) if 'cipher' in which else 'RSA'
    size = ctx.int('size', 1, 65536) if 'size' in which else 1024
    u = ctx.pick('user', [0, 1])
    name = [['ab', 'AB'], ['b', 'B']][u][ctx.pick('upper', [0, 1])]
    st, r, data = aa.request(aa.credentials(name, ['pw1', 'pw2'][u]), key=aa.public_key(pub, cipher, size))
    judge(ctx, aa, st, r, data, expected(aa, ctx, 0, name, pub, cipher, size), NOW, NOW)
    stored(ctx, aa, 0, data)


def times(ctx, ticks, digits, at=None):
    """any clock, which goes on, and any configured lifetime"""
    minute = ctx.pick('minute', MINUTES)
    q = ctx.int('now', 4 * (60 * minute + 10), 4 * (60 * minute + 59 - ticks) + 3)
    n = ctx.str('length', digits, '0123456789', digits) if digits else '3600'
    ctx.assume(n[0] != '0')
    aa = A.AA(ctx, USERS, conf={'AC_EXPIRE_LENGTH': n}, now=None)
    w = aa.world
    if at is None:
        w.set_now(q, ticks)
    else:
        w.set_now(q, at, 4, True)
    t0 = w.now()
    st, r, data = aa.request(aa.credentials('ab', 'pw1'))
    e = expected(aa, ctx)
    c = judge(ctx, aa, st, r, data, e, t0, w.now())
    stored(ctx, aa, 0, data)


def serial(ctx):
    """any serial"""
    aa = A.AA(ctx, USERS, serial=None)
    st, r, data = aa.request(aa.credentials('ab', 'pw1'))
    judge(ctx, aa, st, r, data, expected(aa, ctx), NOW, NOW)
    stored(ctx, aa, 0, data)


def history(ctx, n, first, same=False):
    """several requests with growing serials: every certificate stays stored as it was returned"""
    aa = A.AA(ctx, USERS, serial=first)
    all_data, serials = [], []
    for k in range(n):
        u = ctx.pick('user%d' % k, [0, 1])
        good = ctx.pick('good%d' % k, [True, False])
        if not same:
            aa.world.set_now(4 * (NOW + k))
        st, r, data = aa.request(aa.credentials(['ab', 'b'][u], ['pw1', 'pw2'][u] if good else 'no'), key=aa.public_key(b'key %d' % k))
        ctx.check((st == 'ok') == good, 'issued for the right password')
        if st == 'ok' and good:
            c = judge(ctx, aa, st, r, data, expected(aa, ctx, 0, ['ab', 'b'][u], b'key %d' % k), NOW if same else NOW + k, NOW if same else NOW + k)
            all_data.append(bytes(data))
            serials.append(c.info.serial)
    w = aa.world.written()
    ctx.check(len(w) == len(all_data), 'every certificate is stored once')
    for a, b in zip(w, all_data):
        ctx.check(bytes(a) == b, 'the certificates stored are the ones returned')
    ctx.check(len(set(serials)) == len(serials), 'serials differ')


def cases(tier):
    out = [('authority', {'what': w}) for w in (['A_URI'], ['AAUTH_ID'], ['REV_URI'])]
    out += [('url', {})]
    out += [('holder', {'which': w}) for w in (['pub'], ['bytes'], ['pem'], ['cipher'], ['size'])]
    out += [('times', {'ticks': 3 if tier == 'quick' else 6, 'digits': 0}), ('times', {'ticks': 0, 'digits': 8}), ('times', {'ticks': 2, 'digits': 0, 'at': 16}), ('times', {'ticks': 0, 'digits': 1}),
            ('times', {'ticks': 0, 'digits': 4}), ('serial', {})]
    out += [('history', {'n': 2 if tier == 'quick' else 3, 'first': f}) for f in (0, 9, 0xFE, 2 ** 160 - 2)]
    out += [('history', {'n': 2 if tier == 'quick' else 3, 'first': f, 'same': True}) for f in (0, 0xFE)]
    if tier == 'thorough':
        out += [('authority', {'what': ['A_URI', 'AAUTH_ID']}), ('holder', {'which': ['pub', 'cipher']}), ('times', {'ticks': 3, 'digits': 8})]
    return out
