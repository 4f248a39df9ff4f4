"""C19: certificates are issued only to users who present their own password."""
from checks import aaref as A

REQUIRES = ['hgaa.services.aauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database', 'hgaa.schema.aauth', 'ladon.exceptions.service']
PRELOAD = ['hgaa.services.aauth']
ASSUMPTIONS = ['ideal password hashing: a password matches a stored hash only if it is the hashed one (C31)',
               'user names are stored in lower case; stored passwords with pepper have at most 72 bytes (bcrypt)',
               'names and passwords are valid Unicode']
BOUNDS = {'quick': 'two users; typed user name: any text of up to 3 characters of a b A B % _ blank, or none; passwords: any texts of up to 72 bytes (stored) and 100 bytes (typed), or none; any passwords of up to 3 characters of a A . blank and tab; six stored texts that are no hashes; any integer credential type; three peppers; names of 1 or 2 letters of s S \xdf \xe9 \xc9; sequences of two requests',
          'thorough': 'same, names of up to 4 characters, sequences of 3 requests'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 900
USERS = ['ab', 'b']


def typed(ctx, tag, n=3):
    if ctx.pick(tag + '?', [True, False]):
        return ctx.str(tag, n, 'abAB%_ ')
    return None


def lower(s):
    return ''.join(chr(ord(c) + 32) if 'A' <= c <= 'Z' else c for c in s)


def who(ctx, name):
    """index of the user meant, or None"""
    if name is None:
        return None
    for i, u in enumerate(USERS):
        if len(name) == len(u) and bool(ctx.And(*[ctx.Or(name[k] == u[k], name[k] == u[k].upper()) for k in range(len(u))])):
            return i
    return None


def setup(ctx, pepper):
    pw = [ctx.text('p%d' % i, max_nb=72 - len(pepper.encode('utf-8'))) for i in range(2)]
    T = ctx.imp('hgaa.attcert').AttributeType
    aa = A.AA(ctx, [(1, USERS[0], pw[0]), (2, USERS[1], pw[1])], [('/a/1', 'one', T.INT)], [(1, '/a/1', '5')], pepper=pepper, debug=pepper == 'PEPPER')
    return aa, pw


def judge(ctx, aa, pw, pepper, name, password, ctype, st, r):
    u = who(ctx, name)
    if u is None or password is None:
        right = False
    else:
        right = ctx.And(ctype == 0, ctx.same(password, pw[u]))
    ctx.observe('outcome', st)
    if st == 'ok':
        ctx.check(right, 'a certificate is issued only for the right credentials')
    else:
        ctx.check(ctx.Not(right), 'the right credentials are accepted')


def one(ctx, pepper, n):
    aa, pw = setup(ctx, pepper)
    name = typed(ctx, 'name', n)
    password = ctx.text('password', max_nb=100) if ctx.pick('password?', [True, False]) else None
    ctype = ctx.int('type')
    st, r, data = aa.request(aa.credentials(name, password, ctype))
    judge(ctx, aa, pw, pepper, name, password, ctype, st, r)
    ctx.check((st == 'ok') == (len(aa.world.written()) == 1), 'exactly the issued certificate is stored')


def history(ctx, pepper, n):
    """Several requests with any users and passwords, one after the other"""
    aa, pw = setup(ctx, pepper)
    total = 0
    for k in range(n):
        name = ctx.pick('name%d' % k, ['ab', 'B', 'nobody'])
        password = ctx.text('password%d' % k, max_nb=72)
        st, r, data = aa.request(aa.credentials(name, password))
        judge(ctx, aa, pw, pepper, name, password, 0, st, r)
        total += st == 'ok'
        ctx.check(len(aa.world.written()) == total, 'exactly the issued certificates are stored')


def same_fault(ctx):
    """An unknown user and a wrong password cannot be told apart"""
    aa, pw = setup(ctx, A.PEPPER)
    password = ctx.text('password', max_nb=100)
    ctx.assume(ctx.Not(ctx.same(password, pw[0])))
    st, f, _ = aa.request(aa.credentials('ab', password))
    ctx.check(st == 'fault', 'a wrong password is refused')
    other = ctx.str('name', 3, 'xyz')
    st, g, _ = aa.request(aa.credentials(other, password))
    ctx.check(st == 'fault', 'an unknown user is refused')
    if f is not None and g is not None:
        ctx.check(type(f) is type(g) and str(f) == str(g) and f.faultcode == g.faultcode and f.detail == g.detail, 'the same fault')


def literal_none(ctx):
    """A missing password is not the text 'None'"""
    T = ctx.imp('hgaa.attcert').AttributeType
    aa = A.AA(ctx, [(1, 'ab', 'None'), (2, 'none', 'x')])
    name, password = ctx.pick('which', [('ab', None), (None, 'x'), ('ab', ''), ('', 'x')])
    st, r, _ = aa.request(aa.credentials(name, password))
    ctx.check(st == 'fault', 'refused')


def blanks(ctx, n, k):
    """every character of a password counts"""
    pw = ctx.chars('stored', n, 'aA \t.')
    aa = A.AA(ctx, [(1, 'ab', pw)])
    password = ctx.chars('password', k, 'aA \t.')
    st, r, data = aa.request(aa.credentials('ab', password))
    judge(ctx, aa, [pw, None], A.PEPPER, 'ab', password, 0, st, r)


def long(ctx, pepper, over):
    """passwords around the longest one: every byte counts"""
    k = 72 - len(pepper.encode('utf-8'))
    pw = 'x' * (k - 2) + ctx.chars('stored', 2, 'xy\xe9')
    ctx.assume(len(pw.encode('utf-8')) <= k)
    aa = A.AA(ctx, [(1, 'ab', pw)], pepper=pepper, debug=ctx.pick('debug', [True, False]))
    password = 'x' * (k - 2) + ctx.chars('password', 2 + over, 'xy\xe9' + pepper[:1])
    st, r, data = aa.request(aa.credentials('ab', password))
    judge(ctx, aa, [pw, None], pepper, 'ab', password, 0, st, r)


def letters(ctx, n):
    """letters outside ASCII: no name stands for another one"""
    names = ['ss', '\xdf', '\xe9']
    mine = {'s': 'sS', '\xdf': '\xdf', '\xe9': '\xe9\xc9'}
    pw = ['one', 'two', 'three']
    aa = A.AA(ctx, [(i + 1, u, pw[i]) for i, u in enumerate(names)])
    name = ctx.chars('name', n, 'sS\xdf\xe9\xc9')
    k = ctx.pick('whose', [0, 1, 2])
    st, r, data = aa.request(aa.credentials(name, pw[k]))
    ctx.observe('outcome', st)
    u = names[k]
    right = len(u) == n and ctx.And(*[ctx.Or(*[name[i] == c for c in mine[u[i]]]) for i in range(n)])
    ctx.check((st == 'ok') == bool(right), 'exactly the user of that name')


def malformed(ctx):
    """what is stored is not a password hash: nobody gets a certificate"""
    aa = A.AA(ctx, [(1, 'ab', 'x'), (2, 'b', 'y')], debug=ctx.pick('debug', [True, False]))
    sc = ctx.imp('hgaa.schema.aauth')
    s = ctx.imp('hgaa.database').get_session('AAUTH')()
    row = s.query(sc.User).filter(sc.User.id == 1).first()
    row.password = ctx.pick('stored', ['', '*', 'secret', 'secretPEPPER', '!', '$2b$12$'])
    s.commit()
    s.close()
    password = ctx.text('password', max_nb=60) if ctx.pick('any', [True, False]) else ctx.pick('typed', ['', '*', 'secret', '!', '$2b$12$'])
    try:
        st, r, data = aa.request(aa.credentials('ab', password))
    except ValueError:
        st = 'error'
    ctx.check(st != 'ok', 'no certificate')
    ctx.check(len(aa.world.written()) == 0, 'and none stored')


def cases(tier):
    out = []
    n = 3 if tier == 'quick' else 4
    for p in ('PEPPER', '', 'p\xe9'):
        out.append(('one', {'pepper': p, 'n': n if p == 'PEPPER' else 2}))
        out.append(('history', {'pepper': p, 'n': 2 if tier == 'quick' else 3}))
    out += [('blanks', {'n': i, 'k': j}) for i in (1, 2) for j in (1, 2, 3)] + [('malformed', {})] + [('letters', {'n': i}) for i in (1, 2)]
    out += [('long', {'pepper': p, 'over': k}) for p in ('PEPPER', '', 'p\xe9') for k in (-1, 0, 1, 2)]
    out += [('same_fault', {}), ('literal_none', {})]
    return out
