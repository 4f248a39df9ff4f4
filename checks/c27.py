"""C27: configuration values resolve from section to default to built-in."""
REQUIRES = ['hgaa.config']
PRELOAD = ['hgaa.config']
ASSUMPTIONS = ['section names in the file are upper case (the caller may use any case)', 'values set by the harness contain no percent sign except where stated (interpolation)',
               'configparser is modelled (symbolic run) and real (replay)']
BOUNDS = {'quick': 'option name: any text of up to 2 letters (4 letters, both cases), or one of six known ones in three spellings; section name: any text of up to 2 letters or none; every combination of set / not set in section, DEFAULT and the other configuration; values: any texts of up to 100 bytes, any of up to three characters out of letters, quotes, blanks and signs; every option not set while all others are',
          'thorough': 'same, names of up to 3 letters'}
BUDGET_QUICK = 100
BUDGET_THOROUGH = 600
BUILTIN = {True: {'LOG_NAME': 'services', 'DB_PORT': '3306', 'SERVICE_PORT': '8888', 'SERVICE_HOST': '', 'DB_USER': None, 'LOG_FILE': 'hgaa_service.log',
                  'LOG_FORMAT': '%(asctime)s: [%(levelname)s: %(name)s] %(message)s', 'DB_TYPE': 'mysql', 'CLEAN_LOG_ON_START': 'True', 'DB_HOST': 'localhost',
                  'SERVICE_ENABLED': 'True'},
           False: {'LOG_NAME': 'clients', 'LOG_FILE': 'hgaa_client.log', 'CLEAN_LOG_ON_START': 'False',
                   'LOG_FORMAT': '%(asctime)s: [%(levelname)s: %(name)s] %(message)s'}}


def empty(ctx):
    """-> (module, {True: service parser, False: client parser}), emptied"""
    m = ctx.imp('hgaa.config')
    ps = {True: m.SERVICE_CONFIG, False: m.CLIENT_CONFIG}
    for p in ps.values():
        for s in list(p.sections()):
            p.remove_section(s)
        p['DEFAULT'] = {}
    return m, ps


def same(ctx, got, want):
    if got is None or want is None:
        return got is None and want is None
    return ctx.same(got, want)


def known(ctx, name, other):
    """one option, set or not in each place; section there or not"""
    m, ps = empty(ctx)
    service = ctx.pick('service', [True, False])
    spelling = ctx.pick('spelling', [name, name.lower(), name.title()])
    sect = ctx.pick('sect', ['S', 's', 'DEFAULT', 'default', None, 'T'])
    there = ctx.pick('there', [True, False])
    want = BUILTIN[service].get(name)
    p = ps[service]
    if ctx.pick('in default', [True, False]):
        want = p['DEFAULT'][name] = ctx.text('default', max_nb=100)
    if there:
        p.add_section('S')
        p['S']['OTHER'] = 'x'
        if ctx.pick('in section', [True, False]):
            p['S'][name] = v = ctx.text('section', max_nb=100)
            if sect in ('S', 's'):
                want = v
    if other:
        o = ps[not service]
        o['DEFAULT'][name] = 'other default'
        o.add_section('S')
        o['S'][name] = 'other section'
        o.add_section('T')
        o['T'][name] = 'other T'
    got = m.get_conf(spelling, service) if sect is None else m.get_conf(spelling, service, sect)
    ctx.check(same(ctx, got, want), 'the value of the section, else of DEFAULT, else built-in')


def names(ctx, n):
    """any option and section names"""
    m, ps = empty(ctx)
    service = ctx.pick('service', [True, False])
    p = ps[service]
    tables = {'DEFAULT': {'A': 'da', 'B': 'db', 'AB': 'dab'}, 'S': {'A': 'sa', 'BA': 'sba'}, 'ST': {'B': 'stb', 'A': ''}}
    for s in sorted(tables):
        if s != 'DEFAULT':
            p.add_section(s)
        for o in sorted(tables[s]):
            p[s][o] = tables[s][o]
    opt, sect = ctx.str('opt', n, 'aAbB'), ctx.str('sect', n, 'sStT')
    eq = lambda a, b: len(a) == len(b) and all(x == y or x == y.lower() for x, y in zip(a, b))
    want = None
    for s in ('DEFAULT', 'S', 'ST'):
        if s == 'DEFAULT' or eq(sect, s):
            for o in sorted(tables[s]):
                if eq(opt, o):
                    want = tables[s][o]
    ctx.check(same(ctx, m.get_conf(opt, service, sect), want), 'names are case-insensitive for the caller')
    ctx.check(same(ctx, m.get_conf(opt, not service, sect), None), 'the other configuration does not answer')


OPTIONS = ['DB_TYPE', 'DB_NAME', 'DB_USER', 'DB_PASS', 'DB_PORT', 'DB_HOST', 'LOG_LEVEL', 'LOG_FILE', 'LOG_FORMAT', 'LOG_DATE_FORMAT', 'LOG_NAME', 'LOG_STDOUT', 'SQL_LOG_LEVEL',
           'SQL_LOG_FILE', 'SQL_LOG_FORMAT', 'SQL_LOG_DATE_FORMAT', 'SQL_LOG_STDOUT', 'CLEAN_LOG_ON_START', 'SERVICE_ENABLED', 'SERVICE_PORT', 'SERVICE_HOST', 'PASS_PEPPER',
           'AAUTH_ID', 'A_URI', 'A_URL', 'REV_URI', 'REV_URL', 'KEY_PASS', 'KEY_FILE', 'KEY_SIZE', 'AC_EXPIRE_LENGTH', 'PAUTH_NAME', 'PAUTH_UID', 'CLIENT_TYPE',
           'SERVICE_DESCRIPTION', 'CRED_TYPE', 'CRED_USER', 'CRED_PASS']


def missing(ctx, k):
    """every option but one is set in a section; and in another section; and in DEFAULT"""
    m, ps = empty(ctx)
    service = ctx.pick('service', [True, False])
    name = ctx.pick('name', OPTIONS[k::4])
    p = ps[service]
    p.add_section('AAUTH')
    p.add_section('PAUTH')
    for o in OPTIONS:
        if o != name:
            p['AAUTH'][o] = 'value of ' + o
            p['DEFAULT'][o] = 'default of ' + o
        p['PAUTH'][o] = 'other value of ' + o
    ctx.check(same(ctx, m.get_conf(name, service, 'AAUTH'), ALL[service].get(name)), 'no other option or section answers')


def value(ctx, n):
    """a value of any characters is returned as it is"""
    m, ps = empty(ctx)
    service = ctx.pick('service', [True, False])
    v = ctx.chars('value', n, '"\'aA=:;#$ /')
    sect = ctx.pick('sect', ['DEFAULT', 'AAUTH'])
    p = ps[service]
    if sect != 'DEFAULT':
        p.add_section(sect)
    p[sect]['DB_PASS'] = v
    ctx.check(same(ctx, m.get_conf('DB_PASS', service, 'AAUTH'), v), 'the value as it is set')


def percent(ctx):
    """values read from a file with doubled percent signs"""
    m, ps = empty(ctx)
    service = ctx.pick('service', [True, False])
    ps[service].read_string('[DEFAULT]\nFMT=%%(x)s: %%d\nBASE=/b\n[S]\nLOG_FORMAT=%%Y [%%(name)s]\nDIR=%(BASE)s/d\n')
    ctx.check(m.get_conf('fmt', service, 'S') == '%(x)s: %d', 'a doubled percent sign stands for one')
    ctx.check(m.get_conf('log_format', service, 's') == '%Y [%(name)s]', 'a doubled percent sign stands for one')
    ctx.check(m.get_conf('LOG_FORMAT', service, 'T') == BUILTIN[service]['LOG_FORMAT'], 'built-in')
    ctx.check(m.get_conf('DIR', service, 'S') == '/b/d', 'references to other options')


ALL = {True: {'DB_TYPE': 'mysql', 'DB_NAME': 'hgaa', 'DB_USER': None, 'DB_PASS': None, 'DB_PORT': '3306', 'DB_HOST': 'localhost', 'LOG_LEVEL': 'ALL',
              'LOG_FILE': 'hgaa_service.log', 'LOG_FORMAT': '%(asctime)s: [%(levelname)s: %(name)s] %(message)s', 'LOG_DATE_FORMAT': '%m/%d/%Y %I:%M:%S %p',
              'LOG_NAME': 'services', 'LOG_STDOUT': 'True', 'SQL_LOG_LEVEL': 'ALL', 'SQL_LOG_FILE': 'sql.log',
              'SQL_LOG_FORMAT': '%(asctime)s: [%(levelname)s: %(name)s] %(message)s', 'SQL_LOG_DATE_FORMAT': '%m/%d/%Y %I:%M:%S %p', 'SQL_LOG_STDOUT': 'True',
              'CLEAN_LOG_ON_START': 'True', 'SERVICE_ENABLED': 'True', 'SERVICE_PORT': '8888', 'SERVICE_HOST': ''},
       False: {'LOG_LEVEL': 'ALL', 'LOG_FILE': 'hgaa_client.log', 'LOG_FORMAT': '%(asctime)s: [%(levelname)s: %(name)s] %(message)s',
               'LOG_DATE_FORMAT': '%m/%d/%Y %I:%M:%S %p', 'LOG_NAME': 'clients', 'LOG_STDOUT': 'True', 'CLEAN_LOG_ON_START': 'False'}}


def builtin(ctx):
    """every built-in default, of its own kind only"""
    m, ps = empty(ctx)
    service = ctx.pick('service', [True, False])
    sect = ctx.pick('sect', ['DEFAULT', 'AAUTH'])
    if ctx.pick('there', [True, False]):
        ps[service].add_section('AAUTH')
    for n in sorted(set(ALL[True]) | set(ALL[False])):
        ctx.check(m.get_conf(n, service, sect) == ALL[service].get(n), 'built-in default')


def later(ctx):
    """a change of the configuration is seen by the next lookup, and a lookup changes nothing"""
    m, ps = empty(ctx)
    service = ctx.pick('service', [True, False])
    p = ps[service]
    ctx.check(m.get_conf('DB_PORT', service, 'S') == ('3306' if service else None), 'built-in')
    p['DEFAULT']['DB_PORT'] = a = ctx.text('a', max_nb=100)
    ctx.check(same(ctx, m.get_conf('DB_PORT', service, 'S'), a), 'DEFAULT')
    p.add_section('S')
    ctx.check(same(ctx, m.get_conf('DB_PORT', service, 'S'), a), 'DEFAULT for a section without the option')
    p['S']['DB_PORT'] = b = ctx.text('b', max_nb=100)
    ctx.check(same(ctx, m.get_conf('db_port', service, 's'), b), 'section')
    ctx.check(same(ctx, m.get_conf('db_port', service), a), 'DEFAULT if no section is named')
    p.remove_option('S', 'DB_PORT')
    ctx.check(same(ctx, m.get_conf('DB_PORT', service, 'S'), a), 'DEFAULT again')
    p.remove_option('DEFAULT', 'DB_PORT')
    ctx.check(m.get_conf('DB_PORT', service, 'S') == ('3306' if service else None), 'built-in again')


def cases(tier):
    out = [('known', {'name': n, 'other': o}) for n in ('LOG_NAME', 'DB_PORT', 'DB_USER', 'SERVICE_HOST', 'ZZZ', 'CLEAN_LOG_ON_START') for o in (True, False)]
    out += [('names', {'n': 2 if tier == 'quick' else 3}), ('percent', {}), ('builtin', {}), ('later', {})]
    out += [('missing', {'k': k}) for k in range(4)] + [('value', {'n': n}) for n in (1, 2, 3)]
    return out
