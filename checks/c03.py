"""C03: IN, SUBSET and equality of sets."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast', 'hgpl.symbols', 'hgpl.interpreting']
ASSUMPTIONS = ['policies are given as token lists (the lexer is C06)', 'floats are multiples of 1/4 (exact doubles)']
BOUNDS = {'quick': 'sets of up to 2 elements on each side (3 against 1), elements: any integer, any text of up to 1 character, NULL (constants), small floats; list or set values',
          'thorough': 'sets of up to 3 elements on each side'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 2400
OPS = ['IN', 'SUBSET', '=', '!=']


def element(ctx, name, kinds):
    k = ctx.pick(name + '.kind', kinds)
    if k == 'i':
        return k, ctx.int(name)
    if k == 'f':
        return 'i', ctx.float(name, -8, 8)
    if k == 's':
        return k, ctx.str(name, 1)
    return k, None


def eq(x, y):
    if x[0] != y[0]:
        return False
    if x[0] == 'n':
        return True
    return x[1] == y[1]


def has(ctx, s, x):
    return ctx.Or(*[eq(x, y) for y in s]) if s else False


def sub(ctx, a, b):
    return ctx.And(*[has(ctx, b, x) for x in a]) if a else True


def token(pol, e):
    k, v = e
    if k == 'n':
        pol.add('NULL', 'NULL')
    elif k == 's':
        pol.add('STRING', v)
    else:
        pol.add('FLOAT' if isinstance(v, float) else 'INT', v)


def operand(ctx, pol, table, i, kind, n, kinds):
    """-> list of elements, or one element for a scalar"""
    name = 'op%d' % i
    ns = ['USR_ATT', 'OBJ_ATT'][i]
    if kind == 'K':
        es = [element(ctx, '%s.%d' % (name, j), kinds) for j in range(n)]
        pol.add('LSET')
        for j, e in enumerate(es):
            if j:
                pol.add('COMMA')
            token(pol, e)
        pol.add('RSET')
        return es
    if kind in ('L', 'S'):
        es = [element(ctx, '%s.%d' % (name, j), [k for k in kinds if k != 'n']) for j in range(n)]
        vals = [v for _, v in es]
        R.define(table, pol.sy, pol.TT, name, 'SET', vals if kind == 'L' else set(vals), ns)
        pol.add(ns, name)
        return es
    if kind == 'c':
        e = element(ctx, name, kinds)
        token(pol, e)
        return e
    e = element(ctx, name, [k for k in kinds if k != 'n'])
    R.define(table, pol.sy, pol.TT, name, 'STRING' if e[0] == 's' else 'INT', e[1], ns)
    pol.add(ns, name)
    return e


def sets(ctx, op, left, right, nl, nr, kinds):
    """kinds of operand: K set constant, L list attribute, S set attribute, c scalar constant, a scalar attribute"""
    pol = R.Pol(ctx)
    table = pol.sy.SymbolTable()
    l = operand(ctx, pol, table, 0, left, nl, kinds)
    pol.add('OP', op)
    r = operand(ctx, pol, table, 1, right, nr, kinds)
    st, res, it = R.run_policy(ctx, pol.tree(), table)
    ctx.check(st == 'ok', 'evaluates')
    got = R.code(ctx, res)
    ctx.observe('result', got)
    lset, rset = left in 'KLS', right in 'KLS'
    if (op == 'IN' and (right == 'c' or (left, right) == ('c', 'a'))) or (op == 'SUBSET' and 'c' in (left, right)):
        ctx.check(got == 3, 'a constant that is not a set is no set')
        ctx.check(len(it.get_warnings()) > 0, 'with a warning')
        return
    if op != 'IN' and ((left == 'c' and rset) or (right == 'c' and lset)):
        ctx.check(got == 3, 'a set against a constant that is not a set gives UNDEF')
        return
    # a scalar attribute counts as a one-element set where the other side is a set or another attribute
    a = l if lset else [l]
    b = r if rset else [r]
    if op == 'IN':
        want = has(ctx, b, l) if not lset else ctx.Or(False, *[has(ctx, b, x) for x in a])
        ctx.check(got == ctx.If(want, 1, 2), 'IN')
    elif op == 'SUBSET':
        ctx.check(got == ctx.If(sub(ctx, a, b), 1, 2), 'SUBSET')
    else:
        same = ctx.And(sub(ctx, a, b), sub(ctx, b, a))
        ctx.check(got == ctx.If(same, 1 if op == '=' else 2, 2 if op == '=' else 1), 'set equality')


def representation(ctx, op, n, m):
    """Order, repetition and list/set representation do not matter: two runs on the same elements, arranged differently."""
    es = [element(ctx, 'e%d' % j, ['i', 's']) for j in range(n)]
    other = [element(ctx, 'o%d' % j, ['i', 's']) for j in range(m)]
    vals = [v for _, v in es]
    arranged = list(reversed(vals)) + [vals[ctx.pick('again', list(range(n)))]]
    out = []
    for v in (list(vals), set(arranged), arranged):
        for side in (0, 1):
            pol = R.Pol(ctx)
            table = pol.sy.SymbolTable()
            R.define(table, pol.sy, pol.TT, 'A', 'SET', v, 'ENV_ATT')

            def const():
                pol.add('LSET')
                for j, e in enumerate(other):
                    if j:
                        pol.add('COMMA')
                    token(pol, e)
                pol.add('RSET')
            if side:
                const()
                pol.add('OP', op)
                pol.add('ENV_ATT', 'a')
            else:
                pol.add('ENV_ATT', 'a')
                pol.add('OP', op)
                const()
            st, res, it = R.run_policy(ctx, pol.tree(), table)
            ctx.check(st == 'ok', 'evaluates')
            out.append(R.code(ctx, res))
    ctx.observe('results', out)
    ctx.check(ctx.And(out[0] == out[2], out[0] == out[4]), 'order, repetition and list or set do not matter')
    ctx.check(ctx.Or(op == 'IN', ctx.And(out[1] == out[3], out[1] == out[5])), 'nor on the right')
    if op in ('=', '!='):
        ctx.check(out[0] == out[1], 'nor the side of the constant')


def cases(tier):
    out = []
    big = 2 if tier == 'quick' else 3
    for op in OPS:
        for l in 'KLSca':
            for r in 'KLSca':
                if op in ('=', '!=') and l + r in ('cc', 'ac', 'ca'):
                    continue    # C02
                if op == 'IN' and l == 'K':
                    continue
                if l == 'a' and r == 'a':
                    out.append(('sets', {'op': op, 'left': l, 'right': r, 'nl': 1, 'nr': 1, 'kinds': ['i', 's']}))
                    if op in ('=', '!=', 'SUBSET', 'IN'):
                        continue
                for nl in (range(0, big + 1) if l in 'KLS' else [1]):
                    for nr in (range(0, big + 1) if r in 'KLS' else [1]):
                        if nl + nr <= 2:
                            kinds = ['i', 's', 'n', 'f']
                        elif nl + nr <= 3:
                            kinds = ['i', 's']
                        else:
                            kinds = ['i']
                        if not [k for k in kinds if k != 'n']:
                            continue
                        out.append(('sets', {'op': op, 'left': l, 'right': r, 'nl': nl, 'nr': nr, 'kinds': kinds}))
        out.append(('representation', {'op': op, 'n': 1, 'm': 1}))
        out.append(('representation', {'op': op, 'n': 2, 'm': 1}))
        if tier != 'quick':
            out.append(('representation', {'op': op, 'n': 2, 'm': 2}))
            out.append(('representation', {'op': op, 'n': 3, 'm': 1}))
    out.sort(key=lambda c: -(c[1].get('nl', 3) + c[1].get('nr', 3)))
    return out
