"""C38: keys and password hashes made by the tools work with the attribute authority, for those who know the secret and nobody else."""
from checks import aaref as A

REQUIRES = ['hgaa.tools', 'hgaa.config', 'hgaa.database', 'hgaa.schema.aauth', 'hgaa.services.aauth', 'hgaa.attcert', 'ladon.exceptions.service']
PRELOAD = ['hgaa.tools', 'hgaa.services.aauth']
ASSUMPTIONS = ['ideal key encryption, signatures and password hashes (C31)', 'freshly generated keys are those of the fixture', 'user names are stored in lower case']
BOUNDS = {'quick': 'key passphrases: any text of 1 to 2 printable characters (code below 256, no percent sign), of the key and of the service; key sizes 1024 and 2048 (and the default); with or without a file of that name before; passphrase or file name not configured; passwords: any text of up to 60 bytes, pepper any text of up to 10 bytes, hashed by the tool and tried with any other text; service names in any spelling',
          'thorough': 'same, passphrases of up to 3 characters'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 600

PHRASE = ''.join(chr(c) for c in list(range(32, 127)) + list(range(161, 256)) if chr(c) != '%')


def conf(ctx, **k):
    c = ctx.imp('hgaa.config').SERVICE_CONFIG
    c['DEFAULT']['PASS_PEPPER'] = 'pepper of the others'
    for n in sorted(A.CONF):
        c['AAUTH'][n] = A.CONF[n]
    for n in ('KEY_PASS', 'KEY_FILE'):
        if n in k and k[n] is None:
            c.remove_option('AAUTH', n)
    for n in sorted(k):
        if k[n] is not None:
            c['AAUTH'][n] = k[n]
    return c


def start(ctx):
    """-> service or None, if it does not start"""
    try:
        return ctx.imp('hgaa.services.aauth').AttributeAuthority()
    except ValueError:
        return None


def tables(ctx, rows=()):
    db, sc = ctx.imp('hgaa.database'), ctx.imp('hgaa.schema.aauth')
    sc.AAuthBase.metadata.create_all(db.get_engine('AAUTH'))
    s = db.get_session('AAUTH')()
    s.add_all(rows)
    s.commit()
    s.close()


def key(ctx, n, there, cli):
    """a generated key opens with its passphrase only, and signs what verifies under its public key"""
    w, ac = ctx.world(), ctx.imp('hgaa.attcert')
    w.set_now(4 * 1600000000)
    w.fix_random(0xABCDEF0123)
    made, used = ctx.chars('made', n, PHRASE), ctx.str('used', n, PHRASE, minlen=1)
    path = w.path('the.key')
    if there:
        w.add_file('the.key', w.private_pem(1))
    sc = ctx.imp('hgaa.schema.aauth')
    c = conf(ctx, KEY_FILE=path, KEY_PASS=made)
    if cli:
        ctx.main('hgaa.tools', ctx.pick('args', [['genkey', 'aauth'], ['GENKEY', 'AAuth']]))
        size = 2048
    else:
        size = ctx.pick('size', [None, 1024, 2048])
        if size is None:
            ctx.imp('hgaa.tools').gen_aauth_key(path, made)
            size = 2048
        else:
            ctx.imp('hgaa.tools').gen_aauth_key(path, made, size)
    c['AAUTH']['KEY_PASS'] = used
    s = start(ctx)
    same = len(used) == len(made) and bool(ctx.same(used, made))
    ctx.check((s is not None) == same, 'the key opens with the passphrase it was made with, and no other')
    if s is None:
        c.remove_option('AAUTH', 'KEY_PASS')
        ctx.check(start(ctx) is None, 'the key does not open without a passphrase')
        return
    ctx.check(s.key.size_in_bits() == size, 'a key of the requested size')
    if there:
        old = w.private_pem(1)
        ctx.check(not ctx.same(ctx.imp('Crypto.PublicKey.RSA').import_key(old).publickey().exportKey(), s.pub_key), 'the new key replaces the old')
    tables(ctx, [sc.User(id=1, username='ab', password=w.hash_password('pw' + A.CONF['PASS_PEPPER']))])
    m = ctx.imp('hgaa.services.aauth')
    r = s.attribute_request(m.Credentials(type=0, username='ab', password='pw'), m.PublicKey(public_key=b'k', key_algorithm=m.KeyAlgorithm(cipher='RSA', key_size=2048)),
                            m.AttributeList(attribute_names=[], attribute_ids=[]), REMOTE_ADDR='10.1.2.3')
    cert = ac.AttributeCertificate.import_ac(bytearray(r.data.read()))
    ctx.check(cert.verify_signature(), 'certificates are signed with it')
    ctx.check(ctx.same(cert.issuer.pub_key, s.pub_key), 'and name it')


def unable(ctx):
    """without passphrase there is no key, and an existing one is kept"""
    w = ctx.world()
    there = ctx.pick('there', [False, True])
    path = w.add_file('the.key', w.private_pem(0)) if there else w.path('the.key')
    phrase = ctx.pick('phrase', [None, ''])
    cli = ctx.pick('cli', [False, True])
    conf(ctx, KEY_FILE=path, KEY_PASS=phrase)
    try:
        if cli:
            ctx.main('hgaa.tools', ['genkey', 'aauth'])
        else:
            ctx.imp('hgaa.tools').gen_aauth_key(path, phrase)
        ctx.check(False, 'a key is not stored unprotected')
    except ValueError:
        pass
    if there:
        conf(ctx, KEY_FILE=path, KEY_PASS='x')
        s = start(ctx)
        ctx.check(s is not None, 'the existing key still opens')
        if s is not None:
            ctx.check(ctx.same(s.pub_key, ctx.imp('Crypto.PublicKey.RSA').import_key(w.private_pem(0)).publickey().exportKey()), 'it is the old key')


def unknown_key(ctx):
    w = ctx.world()
    conf(ctx, KEY_FILE=w.path('the.key'), KEY_PASS='x')
    n = len(w.written())
    args = ctx.pick('args', [['genkey', 'pauth'], ['genkey'], ['genkey', 'aauth', 'x'], ['genkey', ''], ['genkeys', 'aauth'], ['gen', 'aauth']])
    try:
        ctx.main('hgaa.tools', args)
    except Exception:
        pass
    ctx.check(len(w.written()) == n, 'no key is made for anything else')


def between(out, a, b):
    """the part of a text between two markers"""
    i = out.index(a) + len(a)
    return out[i:out.index(b, i)]


def password(ctx, mode):
    w = ctx.world()
    w.set_now(4 * 1600000000)
    w.fix_random(0xABCDEF0123)
    sc = ctx.imp('hgaa.schema.aauth')
    if mode == 'text':
        pw, pepper = ctx.text('pw', max_nb=60), ctx.text('pepper', max_nb=10)
        tried = pw if ctx.pick('same', [True, False]) else ctx.text('tried', max_nb=60)
    else:
        pw, pepper, tried = ctx.str('pw', 2, 'ab1 "\n%\u00e9'), 'ab', ctx.str('tried', 2, 'aAb1 "\n%\u00e9')
    w.add_file('key.pem', w.private_pem(0))
    conf(ctx, KEY_FILE=w.path('key.pem'), PASS_PEPPER=pepper)
    out = ctx.main('hgaa.tools', [ctx.pick('command', ['password', 'pass', 'PASS']), ctx.pick('service', ['aauth', 'AAUTH', 'AAuth']), pw])
    head = 'Password: ' + pw + '\nHash: '
    ctx.check(ctx.same(out[:len(head)], head), 'the password as given')
    h = out[len(head):len(head) + 60]
    ctx.check(len(out) == len(head) + 61, 'one hash')
    tables(ctx, [sc.User(id=1, username='ab', password=h)])
    m = ctx.imp('hgaa.services.aauth')
    s = start(ctx)
    ctx.check(s is not None, 'the service starts')
    try:
        s.attribute_request(m.Credentials(type=0, username='ab', password=tried), m.PublicKey(public_key=b'k', key_algorithm=m.KeyAlgorithm(cipher='RSA', key_size=2048)),
                            m.AttributeList(attribute_names=[], attribute_ids=[]), REMOTE_ADDR='10.1.2.3')
        ok = True
    except ctx.imp('ladon.exceptions.service').ClientFault:
        ok = False
    want = ctx.same(tried, pw)
    ctx.check(want if ok else ctx.Not(want), 'the password of the hash is accepted, and no other')


def other_service(ctx):
    """the pepper is that of the named service"""
    w = ctx.world()
    w.fix_random(0xABCDEF0123)
    c = conf(ctx, PASS_PEPPER='first')
    c['PAUTH']['PASS_PEPPER'] = 'second'
    import_bcrypt = ctx.imp('bcrypt')
    s = ctx.pick('service', ['aauth', 'pauth', 'PAuth', 'other'])
    pepper = {'aauth': 'first', 'pauth': 'second', 'other': 'pepper of the others'}[s.lower()]
    pw = ctx.str('pw', 2, 'aA1 ')
    out = ctx.main('hgaa.tools', ['pass', s, pw])
    h = out[len('Password: ' + pw + '\nHash: '):-1]
    tried = ctx.pick('tried', ['first', 'second', 'pepper of the others', ''])
    ok = import_bcrypt.checkpw((pw + tried).encode(), h.encode())
    ctx.check(bool(ok) == (tried == pepper), 'the pepper of that service')


def cases(tier):
    k = 3 if tier == 'thorough' else 2
    out = [('key', {'n': n, 'there': t, 'cli': c}) for n in range(1, k + 1) for t in (False, True) for c in (False, True)]
    out += [('unable', {}), ('unknown_key', {}), ('password', {'mode': 'text'}), ('password', {'mode': 'chars'}), ('other_service', {})]
    return out
