"""C29: authority listings and information report exactly what is registered and configured."""
from checks import aaref as A
from checks import paref as P
from checks.textref import edged, spelled

REQUIRES = ['hgaa.services.pauth', 'hgaa.services.aauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database', 'hgaa.schema.pauth', 'hgaa.schema.aauth',
            'ladon.exceptions.service']
PRELOAD = ['hgaa.services.pauth', 'hgaa.services.aauth']
ASSUMPTIONS = ['the list may be in any order; identifiers of authorities differ', 'a public key may be reported as text or as bytes']
BOUNDS = {'quick': 'up to three registered authorities, every field any text of up to 100 bytes (key: 2000 bytes) or any 32-bit integer; configured identity: any texts of up to 60 bytes; two keys; additions, changes and removals between two listings',
          'thorough': 'same, four authorities'}
BUDGET_QUICK = 120
BUDGET_THOROUGH = 600
TEXTS = ['uid', 'name', 'url', 'key_cipher', 'pub_key']
NUMS = ['key_size', 'trust_level']


def row(ctx, tag, free):
    v = {'uid': '/aa/' + tag, 'name': 'Name ' + tag, 'url': 'http://%s/' % tag, 'key_cipher': 'RSA', 'key_size': 1024, 'pub_key': 'key ' + tag, 'trust_level': 3}
    for f in free:
        if f in TEXTS:
            v[f] = edged(ctx, '%s.%s' % (tag, f), 2000 if f == 'pub_key' else 100)
        else:
            v[f] = ctx.int('%s.%s' % (tag, f), -2 ** 31, 2 ** 31 - 1)
    return v


def text(x):
    return x.decode('utf-8') if not isinstance(x, str) else x


def matches(ctx, v, e):
    return ctx.And(ctx.same(e.uid, v['uid']), ctx.same(e.name, v['name']), ctx.same(e.url, v['url']), ctx.same(text(e.public_key), v['pub_key']),
                   ctx.same(e.key_algorithm.cipher, v['key_cipher']), e.key_algorithm.key_size == v['key_size'], e.trust_level == v['trust_level'])


def check_list(ctx, pa, rows):
    got = pa.service.trusted_attribute_authorities(REMOTE_ADDR='10.0.0.1').attribute_authorities
    ctx.check(len(got) == len(rows), 'one entry per registered authority')
    for v in rows:
        ctx.check(ctx.Or(False, *[matches(ctx, v, e) for e in got]), 'the entry of a registered authority')


def listing(ctx, n, free):
    pa = P.PA(ctx, [])
    rows = [row(ctx, 'x%d' % i, free) for i in range(n)]
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.Not(ctx.same(rows[i]['uid'], rows[j]['uid'])))
    s = pa.session()
    s.add_all([pa.sc.AttributeAuthority(**v) for v in rows])
    s.commit()
    s.close()
    check_list(ctx, pa, rows)
    if n < 3:
        check_list(ctx, pa, rows)


def changes(ctx):
    """registrations change between listings"""
    pa = P.PA(ctx, [])
    rows = [row(ctx, 'x%d' % i, []) for i in range(3)]
    AA = pa.sc.AttributeAuthority
    s = pa.session()
    s.add_all([AA(**v) for v in rows])
    s.commit()
    s.close()
    check_list(ctx, pa, rows)
    s = pa.session()
    act = ctx.pick('act', ['remove', 'change', 'add'])
    if act == 'remove':
        k = ctx.pick('k', [0, 1, 2])
        s.delete(s.query(AA).filter(AA.uid == rows[k]['uid']).first())
        rows.pop(k)
    elif act == 'change':
        f = ctx.pick('f', ['name', 'url', 'key_cipher', 'pub_key', 'key_size', 'trust_level'])
        k = ctx.pick('k', [0, 1, 2])
        new = edged(ctx, 'new', 100) if f in TEXTS else ctx.int('new', -2 ** 31, 2 ** 31 - 1)
        setattr(s.query(AA).filter(AA.uid == rows[k]['uid']).first(), f, new)
        rows[k][f] = new
    else:
        v = row(ctx, 'y', TEXTS[1:] + NUMS)
        s.add(AA(**v))
        rows.append(v)
    s.commit()
    s.close()
    check_list(ctx, pa, rows)


def pa_info(ctx):
    host = ctx.pick('host', ['example.org', '', '  '])
    port = ctx.pick('port', ['8888', '80'])
    conf = {'PAUTH_NAME': spelled(ctx, 'name', 60), 'PAUTH_UID': spelled(ctx, 'uid', 60), 'HOST': host, 'PORT': port}
    pa = P.PA(ctx, [], conf)
    i = pa.service.info(REMOTE_ADDR='10.0.0.1')
    ctx.check(ctx.same(i.name, conf['PAUTH_NAME']), 'name')
    ctx.check(ctx.same(i.uid, conf['PAUTH_UID']), 'uid')
    ctx.check(i.url == 'http://%s:%s/PolicyAuthority/jsonwsp/' % (host.strip() or 'localhost', port), 'url')
    ctx.check(i.version == 1 and i.attribute_certificate_version == 1 and i.policy_language_version == 1, 'versions')


def aa_info(ctx, free):
    k = ctx.pick('key', [0, 1])
    conf = {}
    for f in free:
        conf[f] = spelled(ctx, f, 60)
    aa = A.AA(ctx, [(1, 'ab', 'x')], key=k, conf=conf)
    if ctx.pick('after', [False, True]):
        aa.request(aa.credentials('ab', 'x'))
    i = aa.service.info(REMOTE_ADDR='10.0.0.1')
    ctx.check(ctx.same(i.aauth_id, aa.conf['AAUTH_ID']), 'name')
    ctx.check(ctx.same(i.attribute_uri, aa.conf['A_URI']), 'identifier')
    ctx.check(ctx.same(i.revocation_url, aa.conf['REV_URI']), 'revocation URL')
    ctx.check(i.attribute_authority_version == 1 and i.attribute_certificate_version == 1, 'versions')
    ctx.check(bytes(i.public_key) == aa.world.pem(k), 'public key')
    ctx.check(i.key_algorithm.cipher == 'RSA' and i.key_algorithm.key_size == aa.world.key(k).size_in_bits(), 'key algorithm and size')
    ctx.check(i.signature_type.hash_algorithm == 'SHA256' and i.signature_type.signature_algorithm == 'RSASSA-PKCS1-v1_5', 'signature scheme')
    ctx.check([(c.name, c.value) for c in i.credential_types] == [('USER_PASS', 0)], 'credential types')


def cases(tier):
    out = [('listing', {'n': 0, 'free': []})]
    out += [('listing', {'n': n, 'free': f}) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)) for f in (TEXTS[:1] + NUMS, TEXTS[1:3], TEXTS[3:])]
    out += [('listing', {'n': 2, 'free': TEXTS + NUMS}), ('changes', {}), ('pa_info', {})]
    out += [('aa_info', {'free': f}) for f in (['AAUTH_ID', 'A_URI', 'REV_URI'], [])]
    return out
