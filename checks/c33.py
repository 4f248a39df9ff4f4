"""C33: a session start is recorded completely or not at all, whatever fails or happens meanwhile."""
from checks import paref as P
from checks.c24 import check_session, check_certs, check_links, record

REQUIRES = ['hgaa.services.pauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database', 'hgaa.schema.pauth', 'ladon.exceptions.service', 'sqlalchemy.exc']
PRELOAD = ['hgaa.services.pauth']
ASSUMPTIONS = ['ideal RSA signatures and SHA-256 (C31)', 'random session identifiers do not repeat', 'a commit of the database is atomic']
BOUNDS = {'quick': 'one failure (database error at any query or commit; or the process dies at any clock reading, random number, file opening, query or commit) during a session start, and the attempt after it; one other session start that runs completely at any of these points of the first; one or two certificates per request from a pool of three, two of which share a serial; any attribute value (65535 bytes) and expiry; none or one session before',
          'thorough': 'same, three certificates per request'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 900
A1, A2 = '/aa/1', '/aa/2'
AUTH = [(A1, 0, 1), (A2, 1, 7)]


class Died(BaseException):
    pass


def make(ctx, pa):
    """three certificates; the first two share a serial"""
    pool = []
    for i in range(3):
        k = {'before': ctx.int('before', P.NOW + 1000, 2 ** 32 - 1)} if i == 2 else {'before': P.NOW + 500 + i}
        c = P.cert(ctx, pa, 'c%d' % i, [A1, A1, A2][i], [0, 0, 1][i], serial=[40, 40, 41][i], issued=P.NOW - 50 - i,
                   how={'att0': {'att_value': 'opaque'}} if i == 1 else {}, **k)
        pool.append(record(ctx, c, P.export(pa, c)))
    return pool


def attempt(pa, pool, sel, service):
    """-> (outcome, answer): any exception but a death is a failure"""
    try:
        st, r = pa.start(pa.certset([pa.presented(pool[j]['data']) for j in sel]), service)
    except Died:
        return 'died', None
    except Exception as e:
        return 'failed', e
    return (st, r) if st == 'ok' else ('refused', r)


def judge(ctx, pa, pool, done):
    """done: [(answer, certificates, service)] of the sessions that were answered"""
    s, c, l = pa.stored()
    ctx.check(len(s) == len(done), 'only answered sessions are stored, and each of them')
    ctx.check(len(l) == sum(len(sel) for _, sel, _ in done), 'links of answered sessions only')
    used = []
    for r, sel, service in done:
        for j in sel:
            if j not in used:
                used.append(j)
        row = [x for x in s if bool(ctx.same(x['id'], P.b64_160(r.session_id)))]
        ctx.check(len(row) == 1, 'the answered session is stored')
        if len(row) == 1:
            check_session(ctx, pa, r, [pool[j] for j in sel], P.NOW, pa.world.now(), row[0], service)
        check_links(ctx, l, r, [pool[j] for j in sel])
    ctx.check(not (0 in used and 1 in used), 'a serial stands for one certificate')
    if not (0 in used and 1 in used):
        check_certs(ctx, pa, c, [pool[j] for j in sorted(used)])


def first(ctx, pa, pool, done):
    k = ctx.pick('before', [None, [0], [2]])
    if k is not None:
        st, r = attempt(pa, pool, k, '/service/0')
        ctx.check(st == 'ok', 'the first session starts')
        if st == 'ok':
            done.append((r, k, '/service/0'))
    return k


def fault(ctx, what, sels):
    pa = P.PA(ctx, AUTH)
    pool = make(ctx, pa)
    done = []
    first(ctx, pa, pool, done)
    sel = ctx.pick('sel', sels)

    def action():
        if what == 'died':
            raise Died()
        raise ctx.imp('sqlalchemy.exc').OperationalError('statement', {}, Exception('disk I/O error'))
    pa.world.arrange(action, None if what == 'died' else ('query', 'commit'))
    st, r = attempt(pa, pool, sel, '/service/1')
    happened = pa.world.stop()
    if not happened:
        ctx.check(st == 'ok', 'the session starts when nothing fails')
    if st == 'ok':
        done.append((r, sel, '/service/1'))
    judge(ctx, pa, pool, done)
    st, r = attempt(pa, pool, sel, '/service/2')
    ctx.check(st == 'ok', 'the next attempt succeeds')
    if st == 'ok':
        done.append((r, sel, '/service/2'))
        judge(ctx, pa, pool, done)


def meanwhile(ctx, sels, with_first):
    pa = P.PA(ctx, AUTH)
    pool = make(ctx, pa)
    done = []
    k = first(ctx, pa, pool, done) if with_first else None
    a = ctx.pick('sel', sels)
    b = ctx.pick('other', sels)
    if k == [0]:
        ctx.assume(1 not in a and 1 not in b)
    out = {}

    def action():
        out['b'] = attempt(pa, pool, b, '/service/b')
    pa.world.arrange(action)
    out['a'] = attempt(pa, pool, a, '/service/a')
    if not pa.world.stop():
        action()
    for n, sel in (('a', a), ('b', b)):
        if out[n][0] == 'ok':
            done.append((out[n][1], sel, '/service/' + n))
    ctx.check(out['a'][0] == 'ok' or out['b'][0] == 'ok', 'one of the requests succeeds')
    if not set([0, 0, 1][j] for j in a) & set([0, 0, 1][j] for j in b):
        ctx.check(out['a'][0] == 'ok' and out['b'][0] == 'ok', 'requests with different certificates both succeed')
    judge(ctx, pa, pool, done)


def cases(tier):
    sels = [[0], [0, 2], [2, 0]] if tier == 'quick' else [[0], [1], [0, 2], [2, 0], [1, 2], [0, 2, 0]]
    out = [('fault', {'what': w, 'sels': sels}) for w in ('died', 'database')]
    out += [('meanwhile', {'sels': [[0], [1], [2], [0, 2], [1, 2]], 'with_first': False}), ('meanwhile', {'sels': [[0], [2], [2, 0]], 'with_first': True})]
    return out
