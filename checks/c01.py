"""C01: three-valued AND / OR / NOT."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast', 'hgpl.symbols', 'hgpl.interpreting']
ASSUMPTIONS = ['policies are given as token lists (the lexer is C06); every combination is parenthesised, precedence is C07']
BOUNDS = {'quick': 'every combination of up to 2 conditions with up to 2 NOTs, of 3 conditions with up to 1 NOT; conditions: boolean attributes and constants of every value, integer comparisons (unbounded integers), attributes of any other type',
          'thorough': 'every combination of up to 3 conditions with up to 2 NOTs, of 4 conditions with up to 1 NOT; same conditions'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 2400
SPACES = ['USR_ATT', 'OBJ_ATT', 'ENV_ATT', 'ADM_ATT', 'CON_ATT']


def combination(ctx, shape, kinds):
    """kinds: what each leaf may be: 'A' boolean attribute, 'P' plain Python bool as value of one, 'K' constant, 'C' comparison,
       'X' attribute of another type"""
    pol = R.Pol(ctx)
    AR = ctx.imp('hgpl.ast').ASTResult
    table = pol.sy.SymbolTable()
    bad = []
    count = [0]

    def leaf(p):
        i = count[0]
        count[0] += 1
        kind = ctx.pick('kind%d' % i, kinds)
        ns = SPACES[i % 5]
        name = 'a%d' % i
        if kind == 'K':
            v = ctx.choice('k%d' % i, ['TRUE', 'FALSE', 'UNDEF'])
            p.add('BOOL', v)
            return ctx.If(v == 'TRUE', 1, ctx.If(v == 'FALSE', 2, 3))
        if kind == 'A':
            v = ctx.enum('b%d' % i, AR)
            R.define(table, p.sy, p.TT, name, 'BOOL', v, ns)
            p.add(ns, name)
            return v.value
        if kind == 'P':
            v = ctx.bool('p%d' % i)
            R.define(table, p.sy, p.TT, name, 'BOOL', v, ns)
            p.add(ns, name)
            return ctx.If(v, 1, 2)
        if kind == 'C':
            v = ctx.int('n%d' % i)
            k = ctx.int('c%d' % i)
            R.define(table, p.sy, p.TT, name, 'INT', v, ns)
            p.add(ns, name)
            p.add('OP', '<')
            p.add('INT', k)
            return ctx.If(v < k, 1, 2)
        t = ctx.pick('t%d' % i, ['INT', 'FLOAT', 'STRING', 'SET'])
        v = {'INT': lambda: ctx.int('x%d' % i), 'FLOAT': lambda: ctx.float('x%d' % i, -8, 8), 'STRING': lambda: ctx.str('x%d' % i, 1),
             'SET': lambda: [ctx.int('x%d' % i)]}[t]()
        R.define(table, p.sy, p.TT, name, t, v, ns)
        p.add(ns, name)
        bad.append(i)
        return 3

    want = R.emit(pol, R.shape_of(shape), leaf)
    tree = pol.tree()
    st, r, it = R.run_policy(ctx, tree, table)
    ctx.observe('outcome', st)
    if bad:
        ctx.check(st == 'error', 'a non-boolean attribute as condition is reported as interpreter error')
        return
    ctx.check(st == 'ok', 'evaluates')
    got = R.code(ctx, r)
    ctx.observe('result', got)
    ctx.check(got == want, 'Kleene value of the combination')
    ctx.check(bool(r) == (want == 1), 'only TRUE counts as true')
    ctx.check(bool(r.truth()) == (want == 1), 'truth()')


def operators(ctx):
    """The operators on ASTResult itself."""
    AR = ctx.imp('hgpl.ast').ASTResult
    a = ctx.enum('a', AR)
    b = ctx.enum('b', AR)
    ctx.check(AR.tri_not(a).value == R.kleene_not(ctx, a.value), 'tri_not')
    ctx.check(AR.tri_and(a, b).value == R.kleene_and(ctx, a.value, b.value), 'tri_and')
    ctx.check(AR.tri_or(a, b).value == R.kleene_or(ctx, a.value, b.value), 'tri_or')
    ctx.check((a & b).value == R.kleene_and(ctx, a.value, b.value), '&')
    ctx.check((a | b).value == R.kleene_or(ctx, a.value, b.value), '|')
    ctx.check(bool(a) == (a.value == 1), 'truth value')
    ctx.check(bool(a == b) == (a.value == b.value), '==')
    ctx.check(bool(a != b) == (a.value != b.value), '!=')
    ctx.observe('not', AR.tri_not(a).value)


def cases(tier):
    out = [('operators', {})]
    every = ['A', 'K', 'P', 'C', 'X']
    few = ['A', 'K']
    if tier == 'quick':
        plan = [(1, 2, every), (2, 1, every), (2, 2, few), (3, 0, ['A', 'K', 'X']), (3, 1, ['A'])]
    else:
        plan = [(1, 3, every), (2, 2, every), (3, 0, every), (3, 1, ['A', 'K', 'X']), (3, 2, ['A']), (4, 0, ['A']), (4, 1, ['A'])]
    for n, k, kinds in plan:
        for s in R.shapes(n, k):
            out.append(('combination', {'shape': s, 'kinds': kinds}))
    out.sort(key=lambda c: -len(c[1].get('kinds', [])) ** (str(c[1]).count("'L'") or 1))
    return out
