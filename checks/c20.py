"""C20: certificates carry exactly the requested attributes assigned to their user."""
from checks import aaref as A
from checks import certref as R
from checks.textref import edged, spelled

REQUIRES = ['hgaa.services.aauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database', 'hgaa.schema.aauth', 'ladon.exceptions.service']
PRELOAD = ['hgaa.services.aauth']
ASSUMPTIONS = ['requested identifiers and names are given without surrounding blanks and in the stored letter case',
               'names of the attributes assigned to one user differ', 'the database gives rows in some order (property does not depend on it)']
BOUNDS = {'quick': 'two users, four attributes, every set of assignments to the requester; values: any text of up to 100 bytes or none; any attribute type; up to 2 requested identifiers and 2 names, each any text of up to 2 characters over the letters used, *, or none; two requests by different users in a row',
          'thorough': 'same, up to 3 requested entries of one kind together with 1 of the other, three requests in a row'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 900
ATTS = [('a', 'x'), ('b', 'y'), ('ab', 'xy'), ('c', 'x')]      # identifier, name
OTHER = ['b', 'c']                                             # attributes of the second user


def setup(ctx, mine, types=None, opaque=True):
    T = ctx.imp('hgaa.attcert').AttributeType
    types = types or [T.INT, T.STRING, T.BOOL, T.FLOAT]
    value = lambda tag, c: (edged(ctx, tag, 100) if ctx.pick(tag + '?', [True, False]) else None) if opaque else c
    one = {a: value('v.' + a, 'mine ' + a) for a in mine}
    two = {a: 'other ' + a for a in OTHER}
    atts = [(i, n, t) for (i, n), t in zip(ATTS, types)]
    aa = A.AA(ctx, [(1, 'ab', 'pw1'), (2, 'b', 'pw2')], atts, [(1, a, one[a]) for a in mine] + [(2, a, two[a]) for a in OTHER])
    return aa, dict((i, (n, t)) for i, n, t in atts), [one, two]


def entry(ctx, tag, letters, none):
    if none and not ctx.pick(tag + '?', [True, False]):
        return None
    return ctx.str(tag, 2, letters)


def wanted(ctx, known, mine, ids, names):
    """set of identifiers the certificate must carry, or None if the request has to be refused"""
    skip = lambda e: e is None or e == '' or e == '*'
    ids, names = [e for e in ids if not skip(e)], [e for e in names if not skip(e)]
    if not ids and not names:
        return set(mine)
    out = set()
    for e, key in [(e, lambda a: a) for e in ids] + [(e, lambda a: known[a][0]) for e in names]:
        hit = [a for a in mine if e == key(a)]
        if not hit:
            return None
        out.add(hit[0])
    return out


def judge(ctx, aa, known, mine, ids, names, st, data):
    want = wanted(ctx, known, mine, ids, names)
    ctx.observe('outcome', st)
    ctx.check((st == 'ok') == (want is not None), 'exactly requests for own attributes are answered')
    if st != 'ok' or want is None:
        return
    got = A.user_attributes(aa.certificate(data))
    ctx.check(len(got) == len(want), 'number of attributes')
    for a in sorted(want):
        n, t = known[a]
        values = {'att_id': a, 'att_type': t, 'att_value': mine[a], 'att_name': n, 'extra_bytes': None}
        hit = [g for g in got if g.att_id == a]
        ctx.check(len(hit) == 1, 'attribute once')
        if hit:
            R.check_section(ctx, 'att', values, hit[0])


def request(ctx, aa, user, ids, names):
    return aa.request(aa.credentials(*[('ab', 'pw1'), ('B', 'pw2')][user]), names=list(names), ids=list(ids))


def crossed(ctx):
    """a name is not taken for an identifier, nor the other way round"""
    aa, known, stored = setup(ctx, ['a', 'b', 'ab'], None, False)
    ids = [ctx.pick('id', [None, 'a', 'x', 'xy', 'A', ' a'])]
    names = [ctx.pick('name', [None, 'x', 'a', 'ab', 'X', '/attribute/a'])]
    st, r, data = request(ctx, aa, 0, ids, names)
    if ids[0] in ('A', ' a') or names[0] == 'X':
        if st == 'ok':
            ctx.check(not [g for g in A.user_attributes(aa.certificate(data)) if g.att_id not in ('a', 'b', 'ab')], 'only attributes of the user')
    else:
        judge(ctx, aa, known, stored[0], ids, names, st, data)


def values(ctx, mine):
    """everything is requested; the values are any texts"""
    aa, known, stored = setup(ctx, mine)
    st, r, data = request(ctx, aa, 0, [], [])
    judge(ctx, aa, known, stored[0], [], [], st, data)


def exact(ctx):
    """identifiers, names and values keep their letters and blanks"""
    T = ctx.imp('hgaa.attcert').AttributeType
    i, n, v = edged(ctx, 'id', 60), edged(ctx, 'name', 60), ctx.pick('v', ['', ' ', '0', 'None', ' Yes ', '1.50'])
    aa = A.AA(ctx, [(1, 'ab', 'pw1')], [(i, n, T.STRING)], [(1, i, v)])
    how = ctx.pick('how', ['all', 'id', 'name'])
    st, r, data = request(ctx, aa, 0, [i] if how == 'id' else [], [n] if how == 'name' else [])
    ctx.check(st == 'ok', 'issued')
    if st == 'ok':
        got = A.user_attributes(aa.certificate(data))
        ctx.check(len(got) == 1, 'one attribute')
        R.check_section(ctx, 'att', {'att_id': i, 'att_type': T.STRING, 'att_value': v or None, 'att_name': n, 'extra_bytes': None}, got[0])


def types(ctx):
    T = ctx.imp('hgaa.attcert').AttributeType
    t = ctx.pick('t', list(T))
    aa, known, stored = setup(ctx, ['a', 'b'], [t, T.STRING, t, t], False)
    st, r, data = request(ctx, aa, 0, [], [])
    judge(ctx, aa, known, stored[0], [], [], st, data)


def select(ctx, mine, n_ids, n_names, none=True):
    """any requested entries"""
    aa, known, stored = setup(ctx, mine, None, False)
    ids = [entry(ctx, 'id%d' % i, 'abcx*' if n_ids < 2 else 'abc*', none) for i in range(n_ids)]
    names = [entry(ctx, 'name%d' % i, 'xya*' if n_names < 2 else 'xy*', none) for i in range(n_names)]
    st, r, data = request(ctx, aa, 0, ids, names)
    judge(ctx, aa, known, stored[0], ids, names, st, data)


def history(ctx, n):
    """requests by both users one after the other"""
    aa, known, stored = setup(ctx, ['a', 'b'], None, False)
    T = ctx.imp('hgaa.attcert').AttributeType
    for k in range(n):
        u = ctx.pick('user%d' % k, [0, 1])
        ids = [ctx.pick('id%d' % k, ['*', 'a', 'b', 'c'])]
        names = [ctx.pick('name%d' % k, ['', 'x'])]
        st, r, data = request(ctx, aa, u, ids, names)
        judge(ctx, aa, known, stored[u], ids, names, st, data)


def changed(ctx):
    """the database changes between two requests: the certificate carries what is stored then"""
    aa, known, stored = setup(ctx, ['a', 'b'], None, False)
    st, r, data = request(ctx, aa, 0, [], [])
    judge(ctx, aa, known, stored[0], [], [], st, data)
    sc = ctx.imp('hgaa.schema.aauth')
    s = ctx.imp('hgaa.database').get_session('AAUTH')()
    row = s.query(sc.AttributeAssignment).filter(sc.AttributeAssignment.user_id == 1, sc.AttributeAssignment.att_id == 'a').first()
    if ctx.pick('revoke', [True, False]):
        s.delete(row)
        stored[0].pop('a')
    else:
        stored[0]['a'] = row.value = edged(ctx, 'new', 100)
    s.commit()
    s.close()
    ids = [ctx.pick('id', ['*', 'a', 'b'])]
    st, r, data = request(ctx, aa, 0, ids, [])
    judge(ctx, aa, known, stored[0], ids, [], st, data)


def cases(tier):
    out = []
    sets = [[], ['a'], ['b'], ['ab'], ['a', 'b'], ['a', 'ab'], ['b', 'ab'], ['a', 'b', 'ab']]
    out += [('values', {'mine': m}) for m in sets if len(m) < 3]
    out.append(('types', {}))
    for m in sets:
        for i, n in [(1, 1), (2, 0), (0, 2)]:
            out.append(('select', {'mine': m, 'n_ids': i, 'n_names': n}))
    out.append(('select', {'mine': ['a', 'b'], 'n_ids': 2, 'n_names': 1, 'none': False}))
    out.append(('select', {'mine': ['a', 'b'], 'n_ids': 1, 'n_names': 2, 'none': False}))
    if tier == 'thorough':
        out.append(('values', {'mine': sets[-1]}))
        for m in sets[3:]:
            for i, n in [(2, 1), (1, 2), (3, 0), (0, 3), (2, 2)]:
                out.append(('select', {'mine': m, 'n_ids': i, 'n_names': n, 'none': False}))
    out.append(('history', {'n': 2 if tier == 'quick' else 3}))
    out.append(('changed', {}))
    out.append(('crossed', {}))
    out.append(('exact', {}))
    return out
