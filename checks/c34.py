"""C34: a certificate issued by an attribute authority starts sessions at exactly the policy authorities that trust it, until it expires."""
from checks import aaref as A
from checks import paref as P
from checks.c24 import check_session, check_certs, check_links
from checks.c28 import conf as client_conf

REQUIRES = ['hgaa.services.aauth', 'hgaa.services.pauth', 'hgaa.clients.aauth', 'hgaa.clients.pauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database',
            'hgaa.schema.aauth', 'hgaa.schema.pauth', 'ladon.exceptions.service', 'ladon.clients.jsonwsp']
PRELOAD = ['hgaa.services.aauth', 'hgaa.services.pauth', 'hgaa.clients.aauth', 'hgaa.clients.pauth']
ASSUMPTIONS = ['ideal RSA signatures, SHA-256 and password hashes (C31)', 'the transport between clients and services (ladon) is a stand-in that hands on the values unchanged',
               'within the first second of the validity either answer is accepted (as in C23)']
BOUNDS = {'quick': 'any lifetime of 1, 2, 4, 5, 6, 8 or 9 (thorough: 1 to 9) digits; any identifier of 1 to 3 characters of aA/ .:é# or a URL with them, registered the same or differently; presented at any quarter second from 10 s before the issue to 100 s after the expiry; any registered trust level (32 bit), the same or another registered key, the registered identifier that of the authority or another text of up to 60 bytes; attribute values any text of up to 100 bytes; certificates of two authorities in one session; requests through the clients for all, one or no permitted attributes',
          'thorough': 'same, two sessions with the same certificate at any two times'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 900
NOW = P.NOW
URI = 'hgabac://aa'
USERS = [(1, 'ab', 'pw1'), (2, 'b', 'pw2')]


def authority(ctx, key=0, length='3600', values=None, uri=URI):
    T = ctx.imp('hgaa.attcert').AttributeType
    values = values or ['v', 'w']
    return A.AA(ctx, USERS, [('/a/1', 'x', T.STRING), ('/a/2', 'y', T.INT)], [(1, '/a/1', values[0]), (1, '/a/2', values[1]), (2, '/a/2', 'other')],
                key=key, conf={'AC_EXPIRE_LENGTH': length, 'A_URI': uri})


def issue(ctx, aa):
    st, r, data = aa.request(aa.credentials('ab', 'pw1'))
    ctx.check(st == 'ok', 'a certificate is issued')
    return (r, data) if st == 'ok' else (None, None)


def present(pa, r, data):
    return pa.start(pa.certset([pa.presented(data, r.version, r.format)]))


def judge(ctx, pa, st, answer, certs, q):
    """stored and answered as promised; certs: [(certificate, data)]"""
    s, c, l = pa.stored()
    if st != 'ok':
        ctx.check([len(s), len(c), len(l)] == [0, 0, 0], 'nothing is stored for a refused request')
        return
    recs = [{'serial': c.info.serial, 'data': d, 'fmt': 'BYTES', 'issued': c.info.issued, 'before': c.rev_rules.valid_before} for c, d in certs]
    ctx.check(len(s) == 1, 'one session')
    if s:
        t = pa.world.now()
        check_session(ctx, pa, answer, recs, t, t, s[0])
    check_certs(ctx, pa, c, recs)
    check_links(ctx, l, answer, recs)


def lifetime(ctx, digits, again):
    """presented at any time"""
    n = ctx.str('length', digits, '0123456789', digits)
    ctx.assume(n[0] != '0')
    aa = authority(ctx, length=n)
    r, data = issue(ctx, aa)
    if r is None:
        return
    q = ctx.int('when', 4 * (NOW - 10), 4 * (NOW + int(n) + 100))
    pa = P.PA(ctx, [(URI, 0, 1)], now=q)
    st, ans = present(pa, r, data)
    must, may = P.in_time(ctx, q, NOW, NOW + int(n))
    ctx.check(ctx.Or(ctx.Not(must), st == 'ok'), 'accepted until it expires')
    ctx.check(ctx.Or(may, st != 'ok'), 'accepted only while it is valid')
    judge(ctx, pa, st, ans, [(aa.certificate(data), data)], q)
    if again:
        q2 = ctx.int('again', 4 * (NOW - 10), 4 * (NOW + int(n) + 100))
        pa.world.set_now(q2)
        st, ans = present(pa, r, data)
        must, may = P.in_time(ctx, q2, NOW, NOW + int(n))
        ctx.check(ctx.Or(ctx.Not(must), st == 'ok'), 'accepted again until it expires')
        ctx.check(ctx.Or(may, st != 'ok'), 'accepted again only while it is valid')


def trust(ctx, what):
    """any registration"""
    aa = authority(ctx)
    r, data = issue(ctx, aa)
    if r is None:
        return
    level, key, uid = 1, 0, URI
    if what == 'level':
        level = ctx.int('level', -2 ** 31, 2 ** 31 - 1)
    elif what == 'key':
        key = ctx.pick('key', [0, 1])
    else:
        uid = ctx.text('uid', max_nb=60)
    pa = P.PA(ctx, [(uid, key, level)], now=4 * (NOW + 5))
    st, ans = present(pa, r, data)
    ctx.check(ctx.And(level > 0, key == 0, ctx.same(uid, URI)) if st == 'ok' else ctx.Not(ctx.And(level > 0, key == 0, ctx.same(uid, URI))),
              'accepted exactly where the authority is trusted with its key')
    judge(ctx, pa, st, ans, [(aa.certificate(data), data)], None)


def identifier(ctx, n):
    """any identifier of the authority and of the registered one"""
    uri = ctx.str('uri', n, 'aA/ .:\xe9#', n) if n < 4 else ctx.pick('kind', ['http://', 'HTTP://', 'hgabac://']) + ctx.str('uri', n, 'aA/.', n) + ctx.pick('end', ['', '/', '//', '.test'])
    ctx.assume(ctx.And(uri[0] != ' ', uri[-1] != ' '))
    same = ctx.pick('same', [True, False])
    reg = uri if same else ctx.str('registered', n, 'aA/ .:\xe9#', n) if n < 4 else uri + '/'
    aa = authority(ctx, uri=uri)
    r, data = issue(ctx, aa)
    if r is None:
        return
    ctx.check(aa.certificate(data).issuer.uid == uri, 'issued under the identifier of the authority')
    pa = P.PA(ctx, [(reg, 0, 1)], now=4 * (NOW + 5))
    st, ans = present(pa, r, data)
    ctx.check((st == 'ok') == (reg == uri), 'accepted exactly where the authority is registered under its identifier')
    judge(ctx, pa, st, ans, [(aa.certificate(data), data)], None)


def contents(ctx):
    """any attribute values; certificates of two authorities"""
    aa = authority(ctx, values=[ctx.text('v', max_nb=100), ctx.text('w', max_nb=100)])
    r, data = issue(ctx, aa)
    other = ctx.pick('other key', [0, 1])
    sc = ctx.imp('hgaa.config').SERVICE_CONFIG
    sc['AAUTH']['A_URI'] = 'hgabac://other'
    sc['AAUTH']['KEY_FILE'] = aa.world.add_file('other.pem', aa.world.private_pem(other))
    sc['AAUTH']['AC_EXPIRE_LENGTH'] = '100'
    aa.service = aa.mod.AttributeAuthority()
    st, r2, data2 = aa.request(aa.credentials('b', 'pw2'))
    ctx.check(st == 'ok', 'a certificate is issued by the second authority')
    if st != 'ok' or r is None:
        return
    pa = P.PA(ctx, [(URI, 0, 1), ('hgabac://other', 1, 3)], now=4 * (NOW + 5))
    st, ans = pa.start(pa.certset([pa.presented(data, r.version, r.format), pa.presented(data2, r2.version, r2.format)]))
    ctx.check((st == 'ok') == (other == 1), 'accepted exactly if each authority is registered with its key')
    judge(ctx, pa, st, ans, [(aa.certificate(data), data), (aa.certificate(data2), data2)], None)


class Response(object):
    def __init__(self, status, body):
        self.status, self.response_dict = status, body


def clients(ctx):
    """from the client of the attribute authority to that of the policy authority"""
    aa = authority(ctx, values=[ctx.text('v', max_nb=100, min_n=1), 'w'])
    pa = P.PA(ctx, [(URI, 0, 1)], now=None)
    client_conf(ctx)

    def answer(name, args):
        try:
            if name == 'attribute_request':
                c, k, a = args['credentials'], args['user_public_key'], args['attributes']
                r = aa.service.attribute_request(aa.mod.Credentials(**c),
                                                 aa.public_key(k['public_key'].encode('utf-8'), k['key_algorithm']['cipher'], k['key_algorithm']['key_size']),
                                                 aa.mod.AttributeList(attribute_names=a['attribute_names'], attribute_ids=a['attribute_ids']), REMOTE_ADDR='10.1.2.3')
                return Response(200, {'result': {'data': r.data, 'version': r.version, 'format': r.format}})
            if name == 'start_session':
                cs = [pa.mod.AttributeCertificateType(data=pa.mod.attachment(c['data']), version=c['version'], format=c['format'])
                      for c in args['att_cert_set']['attribute_certificates']]
                r = pa.service.start_session(args['service_uid'], pa.certset(cs), REMOTE_ADDR='10.1.2.3')
                return Response(200, {'result': {'session_id': r.session_id, 'valid_till': r.valid_till, 'start': r.start}})
        except aa.faults.ClientFault as f:
            return Response(200, {'fault': {'string': str(f), 'detail': []}})
        raise AssertionError(name)
    ctx.imp('ladon.clients.jsonwsp').JSONWSPClient.answer = answer
    u = ctx.pick('user', [('ab', 'pw1', True), ('ab', 'pw2', False), ('b', 'pw2', True), ('c', 'pw1', False)])
    names, ids, own = ctx.pick('what', [([], [], 2), (['x'], [], 0), ([], ['/a/2'], 2), (['y'], ['/a/1'], 0), (['z'], [], 3)])
    good = u[2] and (own == 2 or (own == 0 and u[0] == 'ab'))
    key = aa.world.key(1)
    c = ctx.imp('hgaa.clients.aauth').AttributeAuthorityClient({'type': 0, 'username': u[0], 'password': u[1]})
    try:
        got = c.attribute_request(attribute_names=list(names), attribute_ids=list(ids), key=key)
    except Exception:
        ctx.check(not good, 'a good request gives a certificate')
        return
    ctx.check(good, 'only a good request gives a certificate')
    if not good:
        return
    data = got['data'].read()
    cert = aa.certificate(data)
    ctx.check(bytes(cert.holder.pub_key) == bytes(c.last_key.publickey().exportKey()), "the certificate is bound to the client's key")
    ctx.check(len(A.user_attributes(cert)) == (len(names) + len(ids) or (2 if u[0] == 'ab' else 1)), 'the attributes requested')
    ctx.world().set_now(4 * (NOW + 5))
    got['data'] = P.File(data)
    r = ctx.imp('hgaa.clients.pauth').PolicyAuthorityClient('/service/1').start_session([got])
    res = r.response_dict.get('result')
    ctx.check(res is not None, 'the session starts')
    if res is not None:
        ctx.check(res['start'] == NOW + 5 and res['valid_till'] == NOW + 3600, 'until the certificate expires')
    judge(ctx, pa, 'ok', pa.mod.SessionReturn(**res), [(cert, data)], None)


def cases(tier):
    out = [('lifetime', {'digits': d, 'again': a}) for d in ((1, 2, 4, 5, 6, 8, 9) if tier == 'quick' else range(1, 10)) for a in ([False] if tier == 'quick' else [False, True])]
    out += [('trust', {'what': w}) for w in ('level', 'key', 'uid')] + [('identifier', {'n': n}) for n in (1, 2, 3, 4)] + [('contents', {}), ('clients', {})]
    return out
