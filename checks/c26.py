"""C26: certificate equality is an equivalence that sees every difference."""
from checks import certref as R

REQUIRES = ['hgaa.attcert']
ASSUMPTIONS = ['optional fields are absent or not empty, and so are the fields of a signature', 'whether reordering parts with equal identifiers matters is unspecified',
               'opaque texts are valid Unicode, their characters are not inspected; byte strings likewise']
BOUNDS = {'quick': 'two sections of the same kind with all fields free and independent, contents not inspected or up to 2 characters or bytes; two certificates that differ in any one section (all its fields free), in their lists of up to 2 attributes and extensions with free identifiers and values, in the presence of delegation rules, signature and lists',
          'thorough': 'same, lists of up to 3'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 900


def equal(ctx, a, b, want, label):
    r = a == b
    ctx.check(r is True or r is False or isinstance(r, bool), label + ': gives a truth value')
    if want is not None:
        ctx.check(ctx.same(bool(r), bool(want)), label)
    ctx.check(ctx.same(bool(b == a), bool(r)), label + ': symmetric')
    ctx.check(ctx.same(bool(a != b), not bool(r)), label + ': != is the negation')
    return r


def copy(ctx, s):
    return R.make(ctx, s.name, dict(s.values))


def sections(ctx, name, fields, mode='opaque'):
    how = {f: mode for f in fields}
    a, b = R.section(ctx, 'a', name, how, False, 1), R.section(ctx, 'b', name, how, False, 1)
    equal(ctx, a.obj, a.obj, True, 'equals itself')
    equal(ctx, a.obj, copy(ctx, a).obj, True, 'equals an identical copy')
    want = R.same_section(ctx, name, a.values, b.obj)
    ctx.observe('same', bool(want))
    equal(ctx, a.obj, b.obj, want, 'equal exactly if every field is equal')


def one_section(ctx, name, fields, mode='opaque'):
    """Certificates that may differ in one section"""
    how = {f: mode for f in fields}
    p = R.parts(ctx, 'c', {name: how}, 1, 1)
    q = dict(p)
    s = p[name]
    q[name] = R.section(ctx, 'd', name, how, False, 1)
    x, y = R.Cert(p).build(ctx), R.Cert(q).build(ctx)
    equal(ctx, x, x, True, 'equals itself')
    equal(ctx, x, R.Cert(dict(p, **{name: copy(ctx, s)})).build(ctx), True, 'equals an identical copy')
    equal(ctx, x, y, R.same_section(ctx, name, s.values, q[name].obj), 'equal exactly if every field is equal')


def lists(ctx, key, n, m, free):
    """Certificates with different lists of attributes or extensions"""
    fields = (['att_id', free] if key == 'att' else ['eid', 'extra_bytes'])
    idf = fields[0]
    how = {f: 'opaque' for f in fields}
    p = R.parts(ctx, 'c', {'%s%d' % (key, i): how for i in range(4)}, **({'atts': n, 'exts': 1} if key == 'att' else {'atts': 1, 'exts': n}))
    q = dict(p)
    q[key + 's'] = [R.section(ctx, 'd%d' % i, key, how, False, 1) for i in range(m)]
    A, B = p[key + 's'] or [], q[key + 's']
    x, y = R.Cert(p).build(ctx), R.Cert(q).build(ctx)
    equal(ctx, x, x, True, 'equals itself')
    if len(A) != len(B):
        equal(ctx, x, y, False, 'parts added or removed')
        return
    import itertools
    same = [[R.same_section(ctx, key, a.values, b.obj) for b in B] for a in A]
    perms = [ctx.And(True, *[same[i][j] for i, j in enumerate(pi)]) for pi in itertools.permutations(range(len(A)))]
    if bool(perms[0]):
        want = True
    elif not bool(ctx.Or(False, *perms)):
        want = False
    else:
        distinct = ctx.And(True, *[ctx.Not(ctx.same(A[i].values[idf], A[j].values[idf])) for i in range(len(A)) for j in range(i)])
        want = True if bool(distinct) else None
    equal(ctx, x, y, want, 'equal exactly if the parts are')


def repeated(ctx, key):
    """Lists of the same length with the same distinct members but other multiplicities"""
    idf, vf = ('att_id', 'att_value') if key == 'att' else ('eid', 'extra_bytes')
    p = R.parts(ctx, 'c', {}, 1, 1)
    a = R.section(ctx, 'a', key, {idf: 'opaque', vf: 'opaque'}, False, 1)
    b = R.section(ctx, 'b', key, {idf: 'opaque', vf: 'opaque'}, False, 1)
    ctx.assume(ctx.Not(R.same_section(ctx, key, a.values, b.obj)))
    x = R.Cert(dict(p, **{key + 's': [a, b, copy(ctx, b)]})).build(ctx)
    y = R.Cert(dict(p, **{key + 's': [a, b, copy(ctx, a)]})).build(ctx)
    equal(ctx, x, y, False, 'a part repeated another number of times')
    equal(ctx, x, R.Cert(dict(p, **{key + 's': [copy(ctx, a), copy(ctx, b), b]})).build(ctx), True, 'an identical copy')


def absent(ctx):
    """None and empty forms of the optional parts, in every combination"""
    ac = ctx.imp('hgaa.attcert')
    forms = {'att_set': [lambda: None, lambda: []], 'extensions': [lambda: None, lambda: []],
             'del_rules': [lambda: None, lambda: ac.ACDelegationRules(None), lambda: ac.ACDelegationRules()],
             'signature': [lambda: None, lambda: ac.ACSignature(None, None)]}
    p = R.parts(ctx, 'c', {'info': 'opaque'}, None, None, False, False)
    x, y = R.Cert(p).build(ctx), R.Cert(p).build(ctx)
    for f in sorted(forms):
        setattr(x, f, ctx.pick('x.' + f, forms[f])())
        setattr(y, f, ctx.pick('y.' + f, forms[f])())
    equal(ctx, x, y, True, 'absent equals empty')


def halves(ctx):
    """signatures of which a part is missing"""
    ac = ctx.imp('hgaa.attcert')
    p = R.parts(ctx, 'c', {}, 1, None, False, False)
    x, y = R.Cert(p).build(ctx), R.Cert(p).build(ctx)
    vals = []
    for t, c in (('x', x), ('y', y)):
        algo = ctx.text(t + '.algo', max_nb=100, min_n=1) if ctx.pick(t + '.has algo', [True, False]) else None
        val = ctx.data(t + '.value', 300, min_n=1) if ctx.pick(t + '.has value', [True, False]) else None
        vals.append((algo, val))
        if algo is not None or val is not None or ctx.pick(t + '.there', [True, False]):
            c.signature = ac.ACSignature(algo, val)
    same = lambda a, b: (a is None and b is None) if a is None or b is None else ctx.same(a, b)
    want = ctx.And(same(vals[0][0], vals[1][0]), same(vals[0][1], vals[1][1]))
    equal(ctx, x, y, want, 'equal exactly if the signatures are')
    if x.signature is not None and y.signature is not None:
        equal(ctx, x.signature, y.signature, want, 'equal exactly if every field is')


def presence(ctx, part):
    """A part against no such part"""
    ac = ctx.imp('hgaa.attcert')
    name, attr, empty = {'atts': ('att', 'att_set', [None, []]), 'exts': ('ext', 'extensions', [None, []]),
                         'del': ('del', 'del_rules', [None, ac.ACDelegationRules(None)]),
                         'sig': ('sig', 'signature', [None, ac.ACSignature(None, None)])}[part]
    p = R.parts(ctx, 'c', {}, 1, 1)
    s = R.section(ctx, 's', name, 'opaque', False, 1)
    x, y = R.Cert(p).build(ctx), R.Cert(p).build(ctx)
    setattr(x, attr, [s.obj] if part in ('atts', 'exts') else s.obj)
    setattr(y, attr, ctx.pick('empty', empty))
    want = False
    if part == 'del' and s.values['extra_bytes'] is None:
        want = True
    equal(ctx, x, y, want, 'a part and its absence differ')


def others(ctx):
    """Compared with something else: unequal, without raising"""
    ac = ctx.imp('hgaa.attcert')
    p = R.parts(ctx, 'c', {'info': 'opaque'}, 1, 1)
    x = R.Cert(p).build(ctx)
    other = ctx.pick('other', [None, 5, 'text', b'bytes', object(), [], 0])
    equal(ctx, x, other, False, 'a certificate is nothing else')
    for k in ('issuer', 'holder', 'info', 'rev'):
        ctx.check(not (p[k].obj == other), 'a section is nothing else')
        ctx.check(not (x == p[k].obj), 'a certificate is no section')


def cases(tier):
    out = []
    for name, (_, fields) in R.SECTIONS.items():
        fs = [f for f, k in fields]
        if len(fs) <= 4:
            out.append(('sections', {'name': name, 'fields': fs}))
        else:
            for f in fs:
                for g in fs[fs.index(f) + 1:]:
                    out.append(('sections', {'name': name, 'fields': [f, g]}))
            if tier == 'thorough':
                out.append(('sections', {'name': name, 'fields': fs}))
        for f, k in fields:
            if k[:4] in ('text', 'byte'):
                out.append(('sections', {'name': name, 'fields': [f], 'mode': 'chars'}))
                if tier == 'thorough' and name not in ('att', 'ext'):
                    out.append(('one_section', {'name': name, 'fields': [f], 'mode': 'chars'}))
        if name not in ('att', 'ext'):
            if tier == 'thorough' and len(fs) <= 4:
                out.append(('one_section', {'name': name, 'fields': fs}))
            for f in fs:
                out.append(('one_section', {'name': name, 'fields': [f]}))
    for key in ('att', 'ext'):
        for free in (['att_value', 'att_name', 'att_type', 'extra_bytes'] if key == 'att' else ['extra_bytes']):
            for n in (0, 1, 2):
                for m in (0, 1, 2):
                    if free in ('att_value',) or key == 'ext' or n == m:
                        out.append(('lists', {'key': key, 'n': n, 'm': m, 'free': free}))
        if tier == 'thorough':
            out.append(('lists', {'key': key, 'n': 3, 'm': 2, 'free': 'att_value'}))
            out.append(('lists', {'key': key, 'n': 3, 'm': 3, 'free': 'att_type'}))
        out.append(('repeated', {'key': key}))
    out.append(('absent', {}))
    out.append(('halves', {}))
    for part in ('atts', 'exts', 'del', 'sig'):
        out.append(('presence', {'part': part}))
    out.append(('others', {}))
    return out
