"""C41: the server offers exactly the enabled services, at the configured address."""
import os

REQUIRES = ['hgaa.config', 'ladon.server.wsgi', 'wsgiref.simple_server']
PRELOAD = ['hgaa.config']
ASSUMPTIONS = ['the ladon application and the WSGI server are stand-ins that record what they are given', 'port numbers are written in decimal']
BOUNDS = {'quick': "each of the services and all services: enabled or not by any text of up to 5 letters of 'trueTRUEfals', by 'true' in any letter case, or not said; host any text of up to 2 characters of 'a1. ' (or not set), port any decimal number of up to 5 digits (or not set), in the section of the server, for all, or both",
          'thorough': 'same, texts of up to 6 letters, hosts of up to 3 characters'}
BUDGET_QUICK = 100
BUDGET_THOROUGH = 400
SERVICES = ['aauth', 'pauth']


def conf(ctx, sections):
    c = ctx.imp('hgaa.config').SERVICE_CONFIG
    for s in list(c.sections()):
        c.remove_section(s)
    c['DEFAULT'] = {'LOG_NAME': 'x'}
    for s in sections:
        if s != 'DEFAULT':
            c.add_section(s)
        for o in sections[s]:
            c[s][o] = sections[s][o]


def lower(c):
    return chr(ord(c) + 32) if 'A' <= c <= 'Z' else c


def yes(ctx, text):
    """'true' in any letter case"""
    if text is None:
        return True
    if len(text) != 4:
        return False
    return bool(ctx.And(*[ctx.Or(text[i] == 'true'[i], text[i] == 'TRUE'[i]) for i in range(4)]))


def started(ctx):
    """runs the program -> (application, server)"""
    apps, servers = ctx.imp('ladon.server.wsgi').LadonWSGIApplication.made, ctx.imp('wsgiref.simple_server').make_server
    made = type(servers('', 0, None)).made
    del made[:], apps[:]
    ctx.main('hgaa.handler', [])
    ctx.check(len(apps) == 1 and len(made) == 1, 'one application and one server')
    ctx.check(made[0].app is apps[0], 'the server serves the application')
    ctx.check(made[0].served == 1, 'it is started')
    return apps[0], made[0]


def offered(ctx, app, want):
    got = [s for s in app.service_list]
    for s in SERVICES:
        ctx.check((s in got) == want[s], 'exactly the enabled services')
    ctx.check(len(got) == len([s for s in SERVICES if want[s]]), 'each once, and no others')
    paths = app.path_list if isinstance(app.path_list, (list, tuple)) else [app.path_list]
    ctx.check(len(paths) == 1 and os.path.basename(os.path.normpath(paths[0])) == 'services', 'from the directory of the services')


def enabled(ctx, n, free):
    """one text free, the others 'True', 'no' or not given"""
    sections = {'DEFAULT': {}, 'AAUTH': {}, 'PAUTH': {}, 'LADON': {'SERVICE_HOST': 'h', 'SERVICE_PORT': '1'}}
    for s in ('DEFAULT', 'AAUTH', 'PAUTH'):
        v = ctx.chars('text', n, 'trueTRUEfals') if s == free else ctx.pick(s, ['True', 'no', None])
        if v is not None:
            sections[s]['SERVICE_ENABLED'] = v
    if ctx.pick('sections', [True, False]) is False:
        for s in ('AAUTH', 'PAUTH'):
            if not sections[s]:
                del sections[s]
    conf(ctx, sections)
    app, server = started(ctx)
    default = sections['DEFAULT'].get('SERVICE_ENABLED')
    offered(ctx, app, dict((s, yes(ctx, sections.get(s.upper(), {}).get('SERVICE_ENABLED', default))) for s in SERVICES))


def spelled(ctx, which):
    """'true' in any letter case"""
    t = ''.join([ctx.pick('%d' % i, [c, c.upper()]) for i, c in enumerate('true')])
    conf(ctx, {'DEFAULT': {'SERVICE_ENABLED': 'False'}, which: {'SERVICE_ENABLED': t}, 'LADON': {'SERVICE_HOST': 'h', 'SERVICE_PORT': '1'}})
    app, server = started(ctx)
    offered(ctx, app, dict((s, which in ('DEFAULT', s.upper())) for s in SERVICES))


def address(ctx, n, m):
    """host and port"""
    host, port = ctx.chars('host', n, 'a1. ') if n is not None else None, ctx.chars('port', m, '0123456789') if m is not None else None
    sections = {'DEFAULT': {}, 'LADON': {}, 'AAUTH': {'SERVICE_HOST': 'elsewhere', 'SERVICE_PORT': '7'}}
    for o, v, other in (('SERVICE_HOST', host, 'other'), ('SERVICE_PORT', port, '99')):
        if v is not None:
            where = ctx.pick(o, ['LADON', 'DEFAULT', 'both'])
            sections['DEFAULT' if where == 'DEFAULT' else 'LADON'][o] = v
            if where == 'both':
                sections['DEFAULT'][o] = other
    conf(ctx, sections)
    app, server = started(ctx)
    ctx.check(server.port == (int(port) if port is not None else 8888), 'the configured port')
    ctx.check(ctx.same(server.host, host if host is not None else ''), 'the configured host')


def cases(tier):
    k = 5 if tier == 'quick' else 6
    out = [('enabled', {'n': n, 'free': f}) for n in range(0, k + 1) for f in ('DEFAULT', 'AAUTH', 'PAUTH')]
    out += [('enabled', {'n': 1, 'free': None})]
    out += [('spelled', {'which': s}) for s in ('DEFAULT', 'AAUTH', 'PAUTH')]
    hosts = [None] + list(range(0, 3 if tier == 'quick' else 4))
    return out + [('address', {'n': n, 'm': m}) for n in hosts for m in (None, 1, 2, 5)]
