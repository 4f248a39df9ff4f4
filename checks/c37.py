"""C37: every service connects to the database its configuration names, with the configured credentials."""
REQUIRES = ['hgaa.config', 'hgaa.database', 'hgaa.schema.aauth', 'hgaa.schema.pauth', 'hgaa.services.pauth', 'hgaa.services.aauth', 'hgaa.attcert',
            'ladon.exceptions.service']
PRELOAD = ['hgaa.database']
ASSUMPTIONS = ['SQLAlchemy reads connection strings as its regular expression does (modelled; the replay uses the real one)', 'a database is identified by driver, user, password, host, port and name']
BOUNDS = {'quick': "MySQL: user name and password any text of up to 2 characters of 'a@:/?#+ =' or some longer ones with percent signs, or not set; host any text of up to 2 characters of 'a1.-'; any port of up to 5 digits; database name any text of up to 2 letters; each value set for the service, for all services or not at all; another service configured differently; SQLite with any name of up to 2 letters; in-memory; unknown types (any text of up to 5 letters); sessions of two services writing and reading; each service itself with its own, a shared and a test database",
          'thorough': 'same, 3 characters'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 600
HARD = 'a@:/?#+ ='
BUILTIN = {'DB_NAME': 'hgaa', 'DB_USER': None, 'DB_PASS': None, 'DB_PORT': '3306', 'DB_HOST': 'localhost', 'DB_TYPE': 'mysql'}


def conf(ctx, sections):
    """replaces the service configuration"""
    c = ctx.imp('hgaa.config').SERVICE_CONFIG
    for s in list(c.sections()):
        c.remove_section(s)
    c['DEFAULT'] = {'LOG_NAME': 'x'}
    for s in sections:
        if s != 'DEFAULT':
            c.add_section(s)
        for o in sections[s]:
            c[s][o] = sections[s][o]


def connect(ctx, name):
    """-> (engine, URL connected to) of a first connection"""
    w, db = ctx.world(), ctx.imp('hgaa.database')
    n = len(w.engines)
    e = db.get_engine(name)
    ctx.check(e is not None, 'a configured service has an engine')
    ctx.check(len(w.engines) == n + 1, 'one connection')
    return e, w.engines[n]


def mysql(ctx, url, want):
    ctx.check(url.drivername.split('+')[0] == 'mysql', 'a MySQL database')
    ctx.check(url.port == int(want['DB_PORT']), 'the configured port')
    ctx.check(not url.query, 'no further options')
    for what, got, exp in (('user', url.username, want['DB_USER']), ('password', url.password, want['DB_PASS']), ('host', url.host, want['DB_HOST']),
                           ('database', url.database, want['DB_NAME'])):
        if what == 'password' and want['DB_USER'] is None:
            continue            # of nobody
        if exp is None or (what in ('user', 'password') and len(exp) == 0):
            ctx.check(got is None or len(got) == 0, 'no %s is made up' % what)
        else:
            ctx.check(got is not None and ctx.same(got, exp), 'the configured %s' % what)


def hard(ctx, n, what):
    """one value any text, the others fixed"""
    want = {'DB_TYPE': ctx.pick('type', ['mysql', 'MYSQL', 'MySQL']), 'DB_USER': 'u', 'DB_PASS': 'p', 'DB_HOST': 'h', 'DB_PORT': '3306', 'DB_NAME': 'd'}
    if what == 'DB_PORT':
        want[what] = ctx.chars('v', n, '0123456789')
        ctx.assume(int(want[what]) <= 65535)
    else:
        want[what] = ctx.str('v', n, {'DB_USER': HARD, 'DB_PASS': HARD, 'DB_HOST': 'a1.-', 'DB_NAME': 'abZ_'}[what], minlen=0 if what in ('DB_USER', 'DB_PASS') else 1)
    conf(ctx, {'AAUTH': want, 'PAUTH': {'DB_USER': 'other', 'DB_PASS': 'other', 'DB_NAME': 'other'}})
    e, url = connect(ctx, ctx.pick('spelled', ['AAUTH', 'aauth']))
    mysql(ctx, url, want)


def both(ctx):
    """user name and password any characters"""
    want = dict(BUILTIN, DB_USER=ctx.chars('u', 1, HARD), DB_PASS=ctx.chars('p', 1, HARD))
    conf(ctx, {'S': {'DB_USER': want['DB_USER'], 'DB_PASS': want['DB_PASS']}})
    mysql(ctx, connect(ctx, 'S')[1], want)


def percent(ctx):
    written, value = ctx.pick('pw', [('%%41', '%41'), ('a%%', 'a%'), ('%%2F%%40x', '%2F%40x'), ('100%% @home', '100% @home'), ('None', 'None'), ('p@ss:w/rd', 'p@ss:w/rd')])
    where = ctx.pick('where', ['DB_USER', 'DB_PASS'])
    c = {'DB_USER': 'u', 'DB_PASS': 'p'}
    want = dict(BUILTIN, **c)
    c[where], want[where] = written, value
    conf(ctx, {'AAUTH': c})
    mysql(ctx, connect(ctx, 'AAUTH')[1], want)


def resolved(ctx):
    """each value from the section, DEFAULT or built in"""
    want = dict(BUILTIN)
    default, sect = {}, {}
    for i, o in enumerate(['DB_USER', 'DB_PASS', 'DB_HOST', 'DB_PORT', 'DB_NAME']):
        where = ctx.pick('where', ['section', 'default', 'nowhere'])
        v = '%d' % (i + 10) if o == 'DB_PORT' else 'v%d' % i
        if where == 'section':
            sect[o] = want[o] = v
            default[o] = '99' if o == 'DB_PORT' else 'default'
        elif where == 'default':
            default[o] = want[o] = v
    conf(ctx, {'DEFAULT': default, 'PAUTH': sect, 'AAUTH': {'DB_HOST': 'other', 'DB_NAME': 'other', 'DB_PORT': '1'}})
    mysql(ctx, connect(ctx, 'PAUTH')[1], want)


def lite(ctx, n):
    name = ctx.chars('name', n, 'abcxyzABC_0')
    conf(ctx, {'AAUTH': {'DB_TYPE': ctx.pick('type', ['sqlite', 'SQLITE', 'SQLite']), 'DB_NAME': name}, 'PAUTH': {'DB_TYPE': 'sqlite', 'DB_NAME': 'zz'}})
    e, url = connect(ctx, 'AAUTH')
    ctx.check(url.drivername.split('+')[0] == 'sqlite', 'an SQLite database')
    ctx.check(ctx.same(url.database, name + '.db'), 'the file is named like the database')


def memory(ctx):
    conf(ctx, {'AAUTH': {'DB_TYPE': ctx.pick('type', ['memory', 'MEMORY'])}})
    e, url = connect(ctx, 'AAUTH')
    ctx.check(url.drivername.split('+')[0] == 'sqlite' and (url.database is None or len(url.database) == 0 or url.database == ':memory:'), 'in memory')
    ctx.check(ctx.imp('hgaa.database').get_engine('AAUTH') is e, 'a later connection is to the same database')


def unknown(ctx, n):
    t = ctx.chars('type', n, 'mysqlMYSQLite_')
    low = t.lower()
    ctx.assume(ctx.And(low != 'mysql', low != 'sqlite', low != 'memory'))
    conf(ctx, {'AAUTH': {'DB_TYPE': t}})
    ctx.check(ctx.imp('hgaa.database').get_engine('AAUTH') is None, 'no engine for an unsupported type')
    ctx.check(len(ctx.world().engines) == 0, 'and no connection')


def apart(ctx, shared):
    """rows of one service's database are seen by exactly the services with that database"""
    db, sc = ctx.imp('hgaa.database'), ctx.imp('hgaa.schema.aauth')
    kind = ctx.pick('kind', ['sqlite', 'mysql'])
    differs = None if shared else ctx.pick('differs', ['DB_NAME', 'DB_HOST', 'DB_PORT'] if kind == 'mysql' else ['DB_NAME'])
    a = {'DB_TYPE': kind, 'DB_NAME': 'one', 'DB_HOST': 'h', 'DB_PORT': '1', 'DB_USER': 'u', 'DB_PASS': 'p'}
    b = dict(a)
    if differs:
        b[differs] = {'DB_NAME': 'two', 'DB_HOST': 'g', 'DB_PORT': '2'}[differs]
    conf(ctx, {'AAUTH': a, 'PAUTH': b, 'AAUTH_TEST': b, 'PAUTH_TEST': a})
    first, second = ctx.pick('order', [('AAUTH', 'PAUTH'), ('PAUTH', 'AAUTH'), ('AAUTH', 'AAUTH_TEST'), ('PAUTH_TEST', 'PAUTH')])
    for n in (first, second):
        sc.AAuthBase.metadata.create_all(db.get_engine(n))
    s = db.get_session(first)()
    name = ctx.text('name', max_nb=25, min_n=1)
    s.add(sc.User(id=1, username=name, password='p'))
    s.commit()
    s.close()
    for n in (first, second):
        t = db.get_session(n)()
        got = t.query(sc.User).all()
        if n == first or shared:
            ctx.check(len(got) == 1 and ctx.same(got[0].username, name), 'the row is there')
        else:
            ctx.check(len(got) == 0, 'another database does not have the row')
        t.close()
    ctx.check(db.get_engine(first) is db.get_engine(first), 'one engine per service')


def services(ctx, shared, which):
    """each service works on the rows of the database its own section names"""
    from checks import aaref as A
    db, w = ctx.imp('hgaa.database'), ctx.world()
    w.set_now(4 * 1600000000)
    kind = ctx.pick('kind', ['sqlite', 'mysql'])
    own = {'DB_TYPE': kind, 'DB_NAME': 'one', 'DB_HOST': 'h', 'DB_PORT': '1', 'DB_USER': 'u', 'DB_PASS': 'p'}
    other = dict(own) if shared else dict(own, DB_NAME='two')
    mine, others = ('PAUTH', 'AAUTH') if which == 'pauth' else ('AAUTH', 'PAUTH')
    conf(ctx, {'LADON': {'SERVICE_HOST': 'h', 'SERVICE_PORT': '1'},
               mine: own, others: other, mine + '_TEST': dict(own, DB_NAME='test')})
    c = ctx.imp('hgaa.config').SERVICE_CONFIG
    c['PAUTH']['PAUTH_NAME'], c['PAUTH']['PAUTH_UID'] = 'n', 'u'
    for k in ('AAUTH_ID', 'A_URI', 'AC_EXPIRE_LENGTH', 'REV_URI', 'KEY_PASS', 'PASS_PEPPER'):
        c['AAUTH'][k] = A.CONF[k]
    c['AAUTH']['KEY_FILE'] = w.add_file('key.pem', w.private_pem(0))
    sc = ctx.imp('hgaa.schema.' + which)
    made = ctx.pick('service', ['first', 'last'])
    mod = ctx.imp('hgaa.services.' + which)
    make = getattr(mod, 'PolicyAuthority' if which == 'pauth' else 'AttributeAuthority')
    service = make() if made == 'first' else None
    stored = ctx.pick('stored', [mine, others, mine + '_TEST'])
    for n in (mine, others, mine + '_TEST'):
        (sc.PAuthBase if which == 'pauth' else sc.AAuthBase).metadata.create_all(db.get_engine(n))
    s = db.get_session(stored)()
    name = ctx.text('name', max_nb=25, min_n=1)
    if which == 'pauth':
        s.add(sc.AttributeAuthority(uid='/aa', name=name, url='http://a/', key_cipher='RSA', key_size=1024, pub_key='k', trust_level=1))
    else:
        s.add(sc.User(id=1, username='alice', password=w.hash_password('pw' + A.PEPPER)))
    s.commit()
    s.close()
    if service is None:
        service = make()
    there = stored == mine or (shared and stored == others)
    if which == 'pauth':
        got = service.trusted_attribute_authorities(REMOTE_ADDR='10.0.0.1').attribute_authorities
        ctx.check(len(got) == (1 if there else 0), 'the rows of its own database')
        if there:
            ctx.check(ctx.same(got[0].name, name), 'as stored')
    else:
        faults = ctx.imp('ladon.exceptions.service')
        pk = mod.PublicKey(public_key=b'k', key_algorithm=mod.KeyAlgorithm(cipher='RSA', key_size=2048))
        try:
            service.attribute_request(mod.Credentials(type=0, username='alice', password='pw'), pk,
                                      mod.AttributeList(attribute_names=[], attribute_ids=[]), REMOTE_ADDR='10.0.0.1')
            served = True
        except faults.ClientFault:
            served = False
        ctx.check(served == there, 'the users of its own database')


def cases(tier):
    k = 3 if tier == 'thorough' else 2
    out = [('hard', {'n': k, 'what': o}) for o in ('DB_USER', 'DB_PASS', 'DB_HOST', 'DB_NAME')]
    out += [('hard', {'n': n, 'what': 'DB_PORT'}) for n in range(1, 6)]
    out += [('both', {}), ('percent', {}), ('resolved', {}), ('memory', {})]
    out += [('lite', {'n': n}) for n in range(1, k + 1)]
    out += [('unknown', {'n': n}) for n in range(1, 7)]
    out += [('apart', {'shared': False}), ('apart', {'shared': True})]
    out += [('services', {'shared': s, 'which': w}) for s in (False, True) for w in ('pauth', 'aauth')]
    return out
