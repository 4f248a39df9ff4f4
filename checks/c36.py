"""C36: the administration tools fill exactly the intended database with exactly the intended rows."""
from checks.c37 import conf

REQUIRES = ['hgaa.tools', 'hgaa.config', 'hgaa.database', 'hgaa.schema', 'hgaa.schema.aauth', 'hgaa.schema.pauth', 'hgaa.attcert', 'sqlalchemy.exc',
            'hgaa.schema.test.test_aauth', 'hgaa.schema.test.test_pauth']
PRELOAD = ['hgaa.tools']
ASSUMPTIONS = ['the database enforces primary and foreign keys, and commits atomically', 'service names given to build_database are those of the schema (lower case)']
BOUNDS = {'quick': 'databases of both services (separate or one database with both sets of tables) with up to four rows per table and any texts of up to 100 bytes; populating either service, in any spelling, with up to four rows in any order, with or without wiping, in the normal or the test database, with valid rows, a duplicate key or a missing value; any number of 0 to 3 generated attributes; building any selection of services, repeatedly, also with unknown services and unsupported database types, before and after rows exist',
          'thorough': 'same'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 600


class DB(object):
    def __init__(self, ctx, together=False):
        self.ctx = ctx
        ctx.world().foreign_keys = True
        self.names = {'AAUTH': 'one', 'PAUTH': 'one' if together else 'two', 'AAUTH_TEST': 'three', 'PAUTH_TEST': 'four'}
        conf(ctx, dict((s, {'DB_TYPE': 'SQLITE', 'DB_NAME': self.names[s]}) for s in sorted(self.names)))
        self.db, self.tools = ctx.imp('hgaa.database'), ctx.imp('hgaa.tools')
        self.aa, self.pa = ctx.imp('hgaa.schema.aauth'), ctx.imp('hgaa.schema.pauth')
        self.T = ctx.imp('hgaa.attcert').AttributeType
        self.bases = {'AAUTH': self.aa.AAuthBase, 'PAUTH': self.pa.PAuthBase}
        self.classes = {'AAUTH': [self.aa.User, self.aa.Attribute, self.aa.AttributeAssignment],
                        'PAUTH': [self.pa.AttributeAuthority, self.pa.Attribute, self.pa.Policy, self.pa.AttributeCertificate, self.pa.Session,
                                  self.pa.AttributeCertificateAssignment]}
        self.columns = {'User': ['id', 'username', 'password'], 'aauth_attributes': ['id', 'name', 'type'], 'AttributeAssignment': ['user_id', 'att_id', 'value'],
                        'AttributeAuthority': ['uid', 'name', 'url', 'key_cipher', 'key_size', 'pub_key', 'trust_level'], 'pauth_attributes': ['uid', 'name', 'type', 'value'],
                        'Policy': ['uid', 'name', 'policy', 'ast'], 'AttributeCertificate': ['serial', 'certificate', 'format', 'version', 'valid_till', 'hash'],
                        'Session': ['id', 'cert_start', 'cert_valid_till', 'session_start', 'initial_service_ip', 'service_uid', 'session_valid_till'],
                        'AttributeCertificateAssignment': ['ac_serial', 'session_id']}

    def create(self, *sections):
        for s in sections:
            self.bases[s.split('_')[0]].metadata.create_all(self.db.get_engine(s))

    def add(self, section, rows):
        s = self.db.get_session(section)()
        s.add_all(rows)
        s.commit()
        s.close()

    def cols(self, cls):
        return self.columns.get(cls.__tablename__) or self.columns[cls.__name__]

    def rows(self, section, service=None):
        """{class name: sorted rows as lists of values} of the service's tables in the database of that section"""
        s = self.db.get_session(section)()
        out = {}
        for cls in self.classes[service or section.split('_')[0]]:
            out[cls.__tablename__] = [[getattr(o, c) for c in self.cols(cls)] for o in s.query(cls).all()]
        s.close()
        return out

    def values(self, instances, section):
        out = dict((c.__tablename__, []) for c in self.classes[section])
        for cls, kw in instances:
            out[cls.__tablename__].append([kw.get(c) for c in self.cols(cls)])
        return out

    def same(self, got, want, label):
        """the same rows, in any order"""
        ctx = self.ctx
        ctx.check(sorted(got) == sorted(want), label)
        for t in sorted(want):
            ctx.check(len(got[t]) == len(want[t]), label)
            for w in want[t]:
                key = 2 if t == 'aauth_attribute_assignments' or t == 'pauth_attribute_certificate_assignments' else 1
                g = [r for r in got[t] if r[:key] == w[:key]]
                ctx.check(len(g) == 1, label)
                if len(g) == 1:
                    for x, y in zip(g[0], w):
                        ctx.check((x is None and y is None) or (x is not None and y is not None and ctx.same(x, y)), label)

    def old(self, service, n=0):
        """rows that are already there"""
        ctx, t = self.ctx, 'old%d' % n
        if service == 'AAUTH':
            v = ctx.text(t, max_nb=100)
            return [(self.aa.User, {'id': 7 + n, 'username': 'olduser', 'password': 'h'}), (self.aa.Attribute, {'id': '/old/%d' % n, 'name': 'x', 'type': self.T.STRING}),
                    (self.aa.AttributeAssignment, {'user_id': 7 + n, 'att_id': '/old/%d' % n, 'value': v})]
        return [(self.pa.AttributeAuthority, {'uid': 'old%d' % n, 'name': ctx.text(t, max_nb=100), 'url': 'u', 'key_cipher': 'RSA', 'key_size': 1, 'pub_key': 'k', 'trust_level': 3}),
                (self.pa.AttributeCertificate, {'serial': '5', 'certificate': b'cert', 'format': 0, 'version': 1, 'valid_till': 9, 'hash': 'h'}),
                (self.pa.Session, {'id': 's', 'cert_start': 1, 'cert_valid_till': 2, 'session_start': 3, 'initial_service_ip': 'ip', 'service_uid': 'x', 'session_valid_till': 4}),
                (self.pa.AttributeCertificateAssignment, {'ac_serial': '5', 'session_id': 's'})]

    def new(self, service):
        ctx = self.ctx
        if service == 'AAUTH':
            name, v = ctx.text('new name', max_nb=25), ctx.text('new value', max_nb=100)
            rows = [(self.aa.User, {'id': 1, 'username': name, 'password': 'p'}), (self.aa.User, {'id': 2, 'username': 'b', 'password': 'q'}),
                    (self.aa.Attribute, {'id': '/n/1', 'name': 'y', 'type': self.T.INT}),
                    (self.aa.AttributeAssignment, {'user_id': 1, 'att_id': '/n/1', 'value': v}), (self.aa.AttributeAssignment, {'user_id': 2, 'att_id': '/n/1'})]
        else:
            rows = [(self.pa.Policy, {'uid': 'p', 'name': 'n', 'policy': ctx.text('new name', max_nb=200)}), (self.pa.Attribute, {'uid': 'a', 'type': self.T.SET, 'value': 'v'}),
                    (self.pa.AttributeAuthority, {'uid': 'n1', 'name': 'n', 'url': 'u', 'key_cipher': 'RSA', 'key_size': 2048, 'pub_key': 'k', 'trust_level': 0})]
        return rows if ctx.pick('order', [0, 1]) == 0 else rows[::-1]

    def make(self, rows):
        return [cls(**kw) for cls, kw in rows]


def populate(ctx, service, together, test, wipe):
    d = DB(ctx, together)
    d.create('AAUTH', 'PAUTH', 'AAUTH_TEST', 'PAUTH_TEST')
    olds = {}
    for i, s in enumerate(('AAUTH', 'PAUTH', 'AAUTH_TEST', 'PAUTH_TEST')):
        olds[s] = d.old(s.split('_')[0], i % 2)
        d.add(s, d.make(olds[s]))
    rows = d.new(service)
    spelled = ctx.pick('spelled', [service, service.lower()])
    d.db.populate_db(spelled, d.make(rows), wipe_first=wipe, use_test_db=test)
    target = service + ('_TEST' if test else '')
    for s in olds:
        b = s.split('_')[0]
        want = rows if s == target and wipe else olds[s] + rows if s == target else olds[s]
        d.same(d.rows(s), d.values(want, b), 'exactly the given rows replace or join those of the service, and no others')


def refused(ctx, service, wipe):
    """rows that the database does not accept"""
    d = DB(ctx, True)
    d.create('AAUTH', 'PAUTH')
    olds = dict((s, d.old(s)) for s in ('AAUTH', 'PAUTH'))
    for s in olds:
        d.add(s, d.make(olds[s]))
    rows = d.new(service)
    why = ctx.pick('why', ['duplicate', 'existing', 'missing', 'dangling'])
    ctx.assume(not (wipe and why == 'existing'))
    if why == 'duplicate':
        ctx.assume(service == 'PAUTH')
        rows = rows + [(d.pa.Policy, {'uid': 'p', 'policy': 'other'})]
    elif why == 'existing':
        rows = rows + [olds[service][0]]
    elif why == 'missing':
        rows = rows + [(d.aa.User, {'id': 9, 'username': 'u'}) if service == 'AAUTH' else (d.pa.Policy, {'uid': 'q'})]
    else:
        rows = rows + [(d.aa.AttributeAssignment, {'user_id': 77, 'att_id': '/n/1'}) if service == 'AAUTH' else (d.pa.AttributeCertificateAssignment, {'ac_serial': '6', 'session_id': 't'})]
    try:
        d.db.populate_db(service, d.make(rows), wipe_first=wipe)
        ctx.check(False, 'rows the database refuses are reported')
    except ctx.imp('sqlalchemy.exc').SQLAlchemyError:
        pass
    other = 'PAUTH' if service == 'AAUTH' else 'AAUTH'
    d.same(d.rows(other), d.values(olds[other], other), 'the other service is unaffected')
    if not wipe:
        d.same(d.rows(service), d.values(olds[service], service), 'all rows are added or none')


def strange(ctx):
    """an unknown service is never wiped"""
    d = DB(ctx, True)
    d.create('AAUTH', 'PAUTH')
    olds = dict((s, d.old(s)) for s in ('AAUTH', 'PAUTH'))
    for s in olds:
        d.add(s, d.make(olds[s]))
    c = ctx.imp('hgaa.config').SERVICE_CONFIG
    name = ctx.pick('name', ['OTHER', 'aaut', 'AAUTH_TEST', ''])
    c['DEFAULT']['DB_TYPE'] = 'SQLITE'
    c['DEFAULT']['DB_NAME'] = 'one'
    if name == 'AAUTH_TEST':
        c[name]['DB_NAME'] = 'one'
    rows = d.new('AAUTH')
    try:
        d.db.populate_db(name, d.make(rows), wipe_first=True)
        ctx.check(False, 'wiping an unknown service is refused')
    except Exception:
        pass
    for s in olds:
        d.same(d.rows(s), d.values(olds[s], s), 'nothing is wiped or added')


def generated(ctx, n, fresh):
    d = DB(ctx, ctx.pick('together', [False, True]))
    d.create('AAUTH', 'PAUTH')
    pauth = d.old('PAUTH')
    d.add('PAUTH', d.make(pauth))
    old = d.old('AAUTH')
    if not fresh:
        old += [(d.aa.User, {'id': 1, 'username': ctx.text('user', max_nb=25), 'password': 'p'})]
    d.add('AAUTH', d.make(old))
    atts = []
    for i in range(n):
        a = '/attribute/user/a%d' % i
        atts += [(d.aa.Attribute, {'id': a, 'name': 'a%d' % i, 'type': d.T.INT}), (d.aa.AttributeAssignment, {'user_id': 1, 'att_id': a, 'value': '%d' % i})]
    if fresh:
        d.tools.pop_and_gen(n)
        got = d.rows('AAUTH')
        ctx.check(len(got['aauth_users']) == 1 and got['aauth_users'][0][0] == 1, 'one user')
        d.same(got, d.values([(d.aa.User, {'id': 1, 'username': 'dan', 'password': got['aauth_users'][0][2]})] + atts, 'AAUTH'), 'the user with the generated attributes only')
    else:
        if ctx.pick('cli', [False, True]):
            ctx.main('hgaa.tools', ['genatts', '%d' % n])
        else:
            d.tools.gen_atts(n)
        d.same(d.rows('AAUTH'), d.values(old + atts, 'AAUTH'), 'the generated attributes join what is there')
    d.same(d.rows('PAUTH'), d.values(pauth, 'PAUTH'), 'the other service is unaffected')


def has(ctx, d, section, service):
    try:
        d.rows(section, service)
        return True
    except ctx.imp('sqlalchemy.exc').SQLAlchemyError:
        return False


def build(ctx, together, names, cli):
    d = DB(ctx, together)
    if cli:
        args = ctx.pick('args', [['build', 'all'], ['BUILD', 'Aauth', 'PAUTH']]) if len(names) == 2 else ['build', names[0].upper()]
        ctx.main('hgaa.tools', args)
    else:
        d.tools.build_database(list(names))
    for s in ('AAUTH', 'PAUTH'):
        ctx.check(has(ctx, d, s, s) == (s.lower() in names), 'all tables of the named services, and only those')
    if not together:
        ctx.check(not has(ctx, d, 'AAUTH', 'PAUTH') and not has(ctx, d, 'PAUTH', 'AAUTH'), 'each in its own database')
    olds = dict((s, d.old(s)) for s in ('AAUTH', 'PAUTH') if s.lower() in names)
    for s in olds:
        d.same(d.rows(s), d.values([], s), 'empty tables')
        d.add(s, d.make(olds[s]))
    d.tools.build_database(ctx.pick('again', [['aauth', 'pauth'], ['pauth'], ['aauth']]))
    for s in olds:
        d.same(d.rows(s), d.values(olds[s], s), 'building again keeps the rows')


def unbuildable(ctx):
    d = DB(ctx, False)
    bad = ctx.pick('bad', ['unknown', 'type'])
    names = ['aauth', 'other'] if bad == 'unknown' else ['aauth', 'pauth']
    if bad == 'type':
        ctx.imp('hgaa.config').SERVICE_CONFIG['PAUTH']['DB_TYPE'] = 'oracle'
    if ctx.pick('order', [0, 1]):
        names = names[::-1]
    d.create('AAUTH')
    old = d.old('AAUTH')
    d.add('AAUTH', d.make(old))
    try:
        d.tools.build_database(names)
        ctx.check(False, 'a database that cannot be built is reported')
    except Exception:
        pass
    d.same(d.rows('AAUTH'), d.values(old, 'AAUTH'), 'existing rows are kept')


def shipped(ctx, what):
    """the rows that come with the services, from the command line"""
    d = DB(ctx, ctx.pick('together', [False, True]))
    d.create('AAUTH', 'PAUTH')
    olds = dict((s, d.old(s)) for s in ('AAUTH', 'PAUTH'))
    for s in olds:
        d.add(s, d.make(olds[s]))
    sets = {'AAUTH': ctx.imp('hgaa.schema.test.test_aauth').DB_TEST_SET, 'PAUTH': ctx.imp('hgaa.schema.test.test_pauth').DB_TEST_SET}
    want = {}
    for s in sets:
        want[s] = d.values([(type(o), dict((c, getattr(o, c)) for c in d.cols(type(o)))) for o in sets[s]], s)
    for r in want['PAUTH']['pauth_attributes']:
        r[3] = str(r[3])        # stored as text
    ctx.main('hgaa.tools', [ctx.pick('command', ['populate', 'pop', 'POP']), what])
    for s in olds:
        d.same(d.rows(s), want[s] if what.lower() in ('all', s.lower()) else d.values(olds[s], s), 'the rows of the named services are replaced by the shipped ones')


def cases(tier):
    out = [('populate', {'service': s, 'together': t, 'test': x, 'wipe': w}) for s in ('AAUTH', 'PAUTH') for t in (False, True) for x in (False, True) for w in (False, True)]
    out += [('refused', {'service': s, 'wipe': w}) for s in ('AAUTH', 'PAUTH') for w in (False, True)]
    out += [('strange', {})]
    out += [('generated', {'n': n, 'fresh': f}) for n in (0, 1, 3) for f in (False, True)]
    out += [('build', {'together': t, 'names': n, 'cli': c}) for t in (False, True) for n in (['aauth'], ['pauth'], ['aauth', 'pauth']) for c in (False, True)]
    out += [('unbuildable', {})]
    out += [('shipped', {'what': w}) for w in ('all', 'aauth', 'PAUTH')]
    return out
