"""C28: clients never pass off a failed call as a result, and send exactly what they were given."""
from checks.textref import edged, spelled

REQUIRES = ['hgaa.clients.aauth', 'hgaa.clients.pauth', 'hgaa.config', 'ladon.clients.jsonwsp']
PRELOAD = ['hgaa.clients.aauth', 'hgaa.clients.pauth']
ASSUMPTIONS = ['the ladon client is a stand-in that records the calls and answers with any status and body',
               'key generation gives a key not used before (the strength of keys is C31)',
               'the key in use after a failed request is unspecified']
BOUNDS = {'quick': 'any integer status; a body with result, with fault, with both, or empty; any credentials (texts of up to 200 bytes) or configured ones; lists of up to 2 attribute names and identifiers with any texts, or none; supplied keys (two) or generated ones; two calls in a row; any service identifier',
          'thorough': 'same, three calls in a row'}
BUDGET_QUICK = 100
BUDGET_THOROUGH = 600


class Response(object):
    def __init__(self, status, body):
        self.status = status
        self.response_dict = body
        self.status_code = status
        self.reason = ''


class Service(object):
    """answers from the harness"""

    def __init__(self, ctx):
        self.cls = ctx.imp('ladon.clients.jsonwsp').JSONWSPClient
        self.calls = []
        self.next = None
        self.cls.answer = self.answer

    def answer(self, name, args):
        self.calls.append((name, args))
        return self.next


def body(ctx, tag, result, both=False):
    kind = ctx.pick(tag + '.body', ['result', 'fault', 'empty', 'both'] if both else ['result', 'fault', 'empty'])
    if kind == 'result':
        return kind, {'type': 'jsonwsp/response', 'result': result}
    if kind == 'fault':
        return kind, {'type': 'jsonwsp/fault', 'fault': {'code': 'client', 'string': 'no', 'detail': ['x'], 'filename': None, 'lineno': None}}
    if kind == 'both':
        return kind, {'type': 'jsonwsp/fault', 'result': result, 'fault': {'code': 'server', 'string': 'no', 'detail': []}}
    return kind, {}


def conf(ctx, **k):
    c = ctx.imp('hgaa.config').CLIENT_CONFIG
    for s in ('AAUTH', 'PAUTH'):
        c[s]['CLIENT_TYPE'] = 'JSONWSP'
        c[s]['SERVICE_DESCRIPTION'] = 'http://%s/description' % s
    c['AAUTH']['KEY_SIZE'] = '1024'
    for n in k:
        c['AAUTH'][n] = k[n]


def run(ctx, f, *a, **k):
    try:
        return 'ok', f(*a, **k)
    except Exception as e:
        ctx.observe('raised', True)
        return 'raised', None


def judge(ctx, st, got, status, kind, result):
    good = ctx.And(status == 200, kind == 'result')
    if st == 'ok':
        ctx.check(good, 'a result only for status 200 without fault')
        if kind == 'result':
            ctx.check(got is result or got == result, "the service's result")
    else:
        ctx.check(ctx.Not(good), 'a good response is not refused')


def texts(ctx, tag, n):
    k = ctx.pick(tag + '.n', [None] + list(range(n + 1)))
    return None if k is None else [edged(ctx, '%s.%d' % (tag, i), 200) for i in range(k)]


def same_list(ctx, a, b):
    if a is None or b is None:
        return a is None and b is None
    return len(a) == len(b) and ctx.And(True, *[ctx.same(x, y) for x, y in zip(a, b)])


def request(ctx, n, given, keys, size='1024'):
    """attribute requests"""
    sv, w = Service(ctx), ctx.world()
    u, p = edged(ctx, 'user', 200), edged(ctx, 'password', 200)
    conf(ctx, CRED_USER='Conf User', CRED_PASS='Conf Pass', CRED_TYPE='0', KEY_SIZE=size)
    cls = ctx.imp('hgaa.clients.aauth').AttributeAuthorityClient
    cred = {'type': 0, 'username': u, 'password': p} if given else None
    c = cls(cred) if given else cls()
    made = []
    for k in range(n):
        t = 'r%d' % k
        result = {'data': object(), 'version': 1, 'format': 1}
        kind, b = body(ctx, t, result, True)
        status = ctx.int(t + '.status')
        sv.next = Response(status, b)
        names, ids = texts(ctx, t + '.names', 2 if n == 1 else 0), texts(ctx, t + '.ids', 1 if n == 1 else 0)
        i = ctx.pick(t + '.key', keys)
        key = None if i is None else w.key(i)
        args = {}
        if names is not None:
            args['attribute_names'] = names
        if ids is not None:
            args['attribute_ids'] = ids
        if key is not None:
            args['key'] = key
        st, got = run(ctx, c.attribute_request, **args)
        ctx.check(len(sv.calls) == k + 1, 'one call')
        if len(sv.calls) != k + 1:
            return
        name, sent = sv.calls[-1]
        ctx.check(name == 'attribute_request' and sorted(sent) == ['attributes', 'credentials', 'user_public_key'], 'the call')
        sc = sent['credentials']
        if given:
            ctx.check(ctx.And(sc['type'] == 0, ctx.same(sc['username'], u), ctx.same(sc['password'], p)), 'the given credentials')
        else:
            ctx.check(sc['type'] in (0, '0') and sc['username'] == 'Conf User' and sc['password'] == 'Conf Pass', 'the configured credentials')
        ctx.check(same_list(ctx, sent['attributes']['attribute_names'], names), 'the requested names')
        ctx.check(same_list(ctx, sent['attributes']['attribute_ids'], ids), 'the requested identifiers')
        pk = sent['user_public_key']
        if key is not None:
            ctx.check(pk['public_key'] == w.pem(i).decode('ascii'), 'the supplied key')
            ctx.check(pk['key_algorithm']['key_size'] == key.size_in_bits(), 'its size')
        else:
            ctx.check(pk['key_algorithm']['key_size'] == int(size), 'the configured size')
            ctx.check(pk['public_key'] not in made, 'a newly generated key')
            made.append(pk['public_key'])
        ctx.check(pk['key_algorithm']['cipher'] == 'RSA', 'its kind')
        judge(ctx, st, got, status, kind, result)
        if st == 'ok':
            last = c.last_key
            ctx.check(last is not None and bool(last.has_private()), 'the key is kept')
            if last is not None:
                ctx.check(last.publickey().exportKey().decode('ascii') == pk['public_key'], 'the key kept is the one sent')


def info(ctx, which, method):
    """information calls"""
    sv = Service(ctx)
    conf(ctx)
    c = ctx.imp('hgaa.clients.aauth').AttributeAuthorityClient({}) if which == 'aauth' else ctx.imp('hgaa.clients.pauth').PolicyAuthorityClient('/s')
    for k in range(2):
        result = {'name': ctx.text('name%d' % k, max_nb=100)}
        kind, b = body(ctx, 'r%d' % k, result)
        status = ctx.int('status%d' % k)
        sv.next = Response(status, b)
        st, got = run(ctx, getattr(c, method))
        ctx.check([x[0] for x in sv.calls] == [method] * (k + 1) and sv.calls[-1][1] == {}, 'the call')
        judge(ctx, st, got, status, kind, result)


def session(ctx):
    """session requests carry the client's own identifier and the given certificates"""
    sv = Service(ctx)
    conf(ctx)
    P = ctx.imp('hgaa.clients.pauth').PolicyAuthorityClient
    a, b = edged(ctx, 'uid', 200), edged(ctx, 'uid2', 200)
    c1, c2 = P(a), P(b)
    which = ctx.pick('which', [0, 1])
    if ctx.pick('updated', [False, True]):
        [c1, c2][which].update_service(url=ctx.text('url', max_nb=100))
    n = ctx.pick('n', [0, 1, 2])
    certs = [{'data': ctx.data('cert%d' % i, 1000), 'version': ctx.int('version%d' % i), 'format': ctx.int('format%d' % i)} for i in range(n)]
    sv.next = Response(200, {'result': {'session_id': 1}})
    r = [c1, c2][which].start_session(list(certs))
    ctx.check(len(sv.calls) == 1 and sv.calls[0][0] == 'start_session', 'the call')
    args = sv.calls[0][1]
    ctx.check(sorted(args) == ['att_cert_set', 'service_uid'], 'the arguments')
    ctx.check(ctx.same(args['service_uid'], [a, b][which]), 'its own service identifier')
    sent = args['att_cert_set']['attribute_certificates']
    ctx.check(len(sent) == n, 'the certificates')
    for x, y in zip(sent, certs):
        ctx.check(ctx.And(ctx.same(bytes(x['data']), bytes(y['data'])), x['version'] == y['version'], x['format'] == y['format']), 'a certificate')
    ctx.check(r is sv.next or r == {'session_id': 1}, 'the answer')


def kinds(ctx, which):
    """only the supported client type; a changed address or type takes effect"""
    sv = Service(ctx)
    conf(ctx)
    c0 = ctx.imp('hgaa.config').CLIENT_CONFIG
    t = ctx.str('type', 2, 'JS') if ctx.pick('other', [True, False]) else 'JSONWSP'
    c0[which.upper()]['CLIENT_TYPE'] = t
    make = (lambda: ctx.imp('hgaa.clients.aauth').AttributeAuthorityClient({})) if which == 'aauth' else (lambda: ctx.imp('hgaa.clients.pauth').PolicyAuthorityClient('/s'))
    st, c = run(ctx, make)
    ctx.check((st == 'ok') == (t == 'JSONWSP'), 'only JSONWSP is supported')
    if st != 'ok' or t != 'JSONWSP':
        return
    ctx.check([m.url for m in sv.cls.made] == ['http://%s/description' % which.upper()], 'the configured service')
    url = edged(ctx, 'url', 100)
    how = ctx.pick('how', ['url', 'both', 'type', 'bad', 'both bad'])
    if how in ('bad', 'both bad'):
        st, _ = run(ctx, c.update_service, url if how == 'both bad' else None, 'SOAP')
        ctx.check(st == 'raised', 'an unsupported type is refused')
        return
    c.update_service(**{'url': {'url': url}, 'both': {'url': url, 'client_type': 'JSONWSP'}, 'type': {'client_type': 'JSONWSP'}}[how])
    ctx.check(ctx.same(sv.cls.made[-1].url, 'http://%s/description' % which.upper() if how == 'type' else url), 'the new service')
    sv.next = Response(200, {'result': 5})
    ctx.check(c.info() == 5, 'a call to the new service')
    ctx.check(len(sv.cls.made[-1].calls) == 1, 'the new service is called')


def cases(tier):
    out = [('request', {'n': 1, 'given': g, 'keys': k}) for g in (True, False) for k in ([0, 1], [None])]
    out += [('request', {'n': 2 if tier == 'quick' else 3, 'given': True, 'keys': [None, 1]})]
    out += [('request', {'n': 2 if tier == 'quick' else 3, 'given': True, 'keys': [0, 1], 'size': '2048'})]
    out += [('info', {'which': 'aauth', 'method': 'info'}), ('info', {'which': 'pauth', 'method': 'info'}), ('info', {'which': 'pauth', 'method': 'trusted_attribute_authorities'})]
    out += [('session', {}), ('kinds', {'which': 'aauth'}), ('kinds', {'which': 'pauth'})]
    return out
