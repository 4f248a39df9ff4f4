"""C40: passwords, pepper, passphrases and private keys stay out of logs, faults and certificates."""
from checks import aaref as A

REQUIRES = ['hgaa.services.aauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database', 'hgaa.schema.aauth', 'hgaa.tools', 'hgaa.clients.aauth',
            'ladon.clients.jsonwsp', 'ladon.exceptions.service']
PRELOAD = ['hgaa.services.aauth', 'hgaa.tools', 'hgaa.clients.aauth']
ASSUMPTIONS = ['ideal password hashing and encryption: a hash and an encrypted key do not reveal the secret (C31)',
               'messages of the libraries and of tracebacks are outside; SQLAlchemy shows no password in the text of a URL (2.1; the replay uses the real one)',
               'time measured for a request is fixed']
BOUNDS = {'quick': 'two runs with any two different secrets (texts of up to 60 bytes; database passwords of 2 letters) and otherwise equal inputs: database password, key passphrase, pepper, right and wrong user password, client password; messages of every level (of a request: above debug), the fault or the certificate; with debugging on, any secret of 3 characters of ~ ^ ` nowhere in a message',
          'thorough': 'same, secrets of up to 4 characters'}
BUDGET_QUICK = 120
BUDGET_THOROUGH = 600
ODD = '~^`'


class Logged(object):
    """what is logged from now on"""

    def __init__(self, ctx, debug):
        self.ctx = ctx
        log = ctx.imp('hgaa.log').SERVICE_LOG
        log.debugging[0] = debug
        self.records = log.records
        self.records.clear()

    def take(self):
        out = [m % a if len(a) > 0 else m for l, m, a in self.records]
        self.records.clear()
        return [str(m) for m in out]

    def equal(self, a, b, what):
        self.ctx.check(len(a) == len(b), 'as many messages with either %s' % what)
        for x, y in zip(a, b):
            self.ctx.check(self.ctx.same(x, y), 'no message depends on the %s' % what)

    def free(self, what, more=()):
        """no character of the secret"""
        for m in self.take() + list(more):
            self.ctx.check(not any(c in m for c in ODD), 'the %s is in no message' % what)
            self.ctx.check(not any(p.endswith('PRIVATE KEY') for p in m.split('-----')), 'nor is a private key')


def two(ctx, what, nb=60):
    a, b = ctx.text(what + ' 1', max_nb=nb), ctx.text(what + ' 2', max_nb=nb)
    return a, b


def set_password(ctx, w, name, password):
    sc = ctx.imp('hgaa.schema.aauth')
    s = ctx.imp('hgaa.database').get_session('AAUTH')()
    s.query(sc.User).filter(sc.User.username == name).first().password = w.hash_password(password)
    s.commit()
    s.close()


def authority(ctx, debug, **k):
    T = ctx.imp('hgaa.attcert').AttributeType
    return A.AA(ctx, [(1, 'ab', 'first')], [('/a/1', 'one', T.INT)], [(1, '/a/1', '5')], debug=debug, **k)


def said(ctx, aa, name, password):
    """one request -> (outcome, texts of the fault, certificate)"""
    aa.world.fix_random(77)
    st, r, data = aa.request(aa.credentials(name, password))
    return st, None if st == 'ok' else [str(r), str(r.faultcode), str(r.detail)], data


def request(ctx, kind):
    """two requests that differ in the password only, with equal outcome"""
    aa = authority(ctx, False)
    p = two(ctx, 'password')
    name = ctx.pick('name', ['ab', 'AB']) if kind == 'right' else ctx.pick('name', ['ab', 'x'])
    if kind == 'wrong':
        for q in p:
            ctx.assume(ctx.Not(ctx.same(q, 'first')))
    runs = []
    for q in p:
        if kind == 'right':
            set_password(ctx, aa.world, 'ab', q + A.PEPPER)
        log = Logged(ctx, False)
        runs.append(said(ctx, aa, name, q) + (log.take(),))
    a, b = runs
    ctx.check(a[0] == b[0] == ('ok' if kind == 'right' else 'fault'), 'the same outcome')
    ctx.check(a[1] == b[1], 'the fault does not depend on the password')
    if kind == 'right':
        ctx.check(a[2] == b[2], 'the certificate does not depend on the password')
    log.equal(a[3], b[3], 'password')


def peppered(ctx):
    """right and wrong passwords under two peppers"""
    aa = authority(ctx, False)
    right = ctx.pick('right', [True, False])
    c = ctx.imp('hgaa.config').SERVICE_CONFIG
    runs = []
    for pepper in two(ctx, 'pepper'):
        c['AAUTH']['PASS_PEPPER'] = pepper
        set_password(ctx, aa.world, 'ab', 'pw' + pepper)
        log = Logged(ctx, True)
        aa.service = aa.mod.AttributeAuthority()
        start = log.take()
        log = Logged(ctx, False)
        runs.append(said(ctx, aa, 'ab', 'pw' if right else 'pwd') + (start + log.take(),))
    a, b = runs
    ctx.check(a[0] == b[0] == ('ok' if right else 'fault'), 'the same outcome')
    ctx.check(a[1] == b[1], 'the fault does not depend on the pepper')
    if right:
        ctx.check(a[2] == b[2], 'the certificate does not depend on the pepper')
    log.equal(a[3], b[3], 'pepper')


def startup(ctx):
    """key passphrase"""
    aa = authority(ctx, True)
    c = ctx.imp('hgaa.config').SERVICE_CONFIG
    runs = []
    for k in [ctx.chars('passphrase%d' % i, 2, 'abcXYZ 0') for i in (1, 2)]:
        c['AAUTH']['KEY_PASS'] = k
        log = Logged(ctx, True)
        aa.service = aa.mod.AttributeAuthority()
        said(ctx, aa, 'ab', 'first')
        info = aa.service.info(REMOTE_ADDR='10.0.0.1')
        runs.append((log.take(), said(ctx, aa, 'ab', 'first')[2]))
    log.equal(runs[0][0], runs[1][0], 'passphrase')
    ctx.check(runs[0][1] == runs[1][1], 'nor does the certificate')


DIGITS = '\u0661\u0662'        # the names of the two services differ in these


def database(ctx, n):
    """password of the database"""
    c = ctx.imp('hgaa.config').SERVICE_CONFIG
    db = ctx.imp('hgaa.database')
    kind = ctx.pick('kind', ['mysql', 'sqlite', 'nodb'])
    runs = []
    for d in DIGITS:
        c.add_section('S' + d)
        for o, v in (('DB_TYPE', kind), ('DB_NAME', 'd'), ('DB_USER', 'u'), ('DB_PASS', ctx.chars('pw' + d, n, 'abc')), ('DB_HOST', 'h'), ('DB_PORT', '1'), ('LOG_NAME', 'x')):
            c['S' + d][o] = v
        log = Logged(ctx, True)
        db.get_engine('S' + d)
        runs.append(log.take())
    ctx.check(len(runs[0]) == len(runs[1]), 'as many messages')
    for x, y in zip(*runs):
        ok = len(x) == len(y)
        ctx.check(ok, 'messages of the same size')
        if ok:
            ctx.check(ctx.And(True, *[ctx.Or(a == b, ctx.And(a == DIGITS[0], b == DIGITS[1])) for a, b in zip(x, y)]), 'no message depends on the password of the database')


def debugging(ctx, what, n):
    """no message shows a secret, however detailed"""
    conf = {}
    secret = ctx.chars('secret', n, ODD)
    if what == 'KEY_PASS':
        conf[what] = secret
    aa = authority(ctx, True, conf=conf, pepper=secret if what == 'pepper' else None)
    if what == 'right':
        set_password(ctx, aa.world, 'ab', secret + A.PEPPER)
    log = Logged(ctx, True)
    aa.service = aa.mod.AttributeAuthority()
    aa.service.info(REMOTE_ADDR='10.0.0.1')
    st, fault, data = said(ctx, aa, ctx.pick('name', ['ab', 'nobody']), secret if what in ('right', 'wrong') else 'first')
    log.free(what, fault or [])


def client(ctx, n):
    """messages of a client, and what it sends besides its credentials"""
    secret = ctx.chars('secret', n, ODD)
    c = ctx.imp('hgaa.config').CLIENT_CONFIG
    configured = ctx.pick('configured', [True, False])
    for o, v in (('CLIENT_TYPE', 'JSONWSP'), ('SERVICE_DESCRIPTION', 'http://a/'), ('KEY_SIZE', '1024'), ('CRED_TYPE', '0'), ('CRED_USER', 'u'),
                 ('CRED_PASS', secret if configured else 'other')):
        c['AAUTH'][o] = v
    cls = ctx.imp('ladon.clients.jsonwsp').JSONWSPClient
    sent = []

    class Answer(object):
        status = ctx.pick('status', [200, 500])
        response_dict = {'result': {'x': 1}} if ctx.pick('good', [True, False]) else {'fault': {'code': 'client', 'string': 'no', 'detail': []}}
        status_code, reason = status, ''

    def answer(name, args):
        sent.append(args)
        return Answer()
    cls.answer = answer
    log = Logged(ctx, True)
    mod = ctx.imp('hgaa.clients.aauth')
    k = mod.AttributeAuthorityClient() if configured else mod.AttributeAuthorityClient({'type': 0, 'username': 'u', 'password': secret})
    try:
        k.attribute_request(**({'key': ctx.world().key(0)} if ctx.pick('key', [True, False]) else {}))
        raised = []
    except Exception as e:
        raised = [str(e)]
    log.free('password', raised)
    ctx.check(len(sent) == 1, 'one call')
    key = sent[0]['user_public_key']['public_key']
    ctx.check('PUBLIC KEY' in key and 'PRIVATE' not in key, 'only the public key is sent')


def keytool(ctx, n):
    """generation of a key"""
    secret = ctx.chars('secret', n, ODD)
    w = ctx.world()
    path = w.path('generated.pem')
    log = Logged(ctx, True)
    ctx.imp('hgaa.tools').gen_aauth_key(path, secret, 1024)
    log.free('passphrase')


def cases(tier):
    n = 3 if tier == 'quick' else 4
    out = [('request', {'kind': k}) for k in ('right', 'wrong')] + [('peppered', {}), ('startup', {}), ('database', {'n': n - 1})]
    out += [('debugging', {'what': w, 'n': n}) for w in ('right', 'wrong', 'pepper', 'KEY_PASS')]
    return out + [('client', {'n': n}), ('keytool', {'n': n})]
