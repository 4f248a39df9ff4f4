"""C04: missing, unset or mistyped attributes never decide a policy."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast', 'hgpl.symbols', 'hgpl.interpreting']
ASSUMPTIONS = ['policies are given as token lists (the lexer is C06)', 'declared types: INT, FLOAT, STRING, BOOL, SET, or none (UNKNOWN)']
BOUNDS = {'quick': 'one condition with every operator, operand kind and side; policies of up to 2 conditions with up to 1 NOT (3 conditions without) over 2 shared attributes per type, each missing, unset, mistyped or present with any value; integers unbounded, texts up to 1 character, sets of one element',
          'thorough': 'policies of up to 3 conditions with up to 1 NOT'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 2400
OPS = ['=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET']
TYPES = ['INT', 'FLOAT', 'STRING', 'BOOL', 'SET']
FITS = {'INT': ['int', 'float'], 'FLOAT': ['int', 'float'], 'STRING': ['str'], 'BOOL': ['bool', 'res'], 'SET': ['list', 'set'], 'UNKNOWN': []}
VALUES = ['int', 'float', 'str', 'bool', 'res', 'list', 'set']


def value(ctx, name, kind):
    if kind == 'int':
        return ctx.int(name)
    if kind == 'float':
        return ctx.float(name, -8, 8)
    if kind == 'str':
        return ctx.str(name, 1)
    if kind == 'bool':
        return ctx.bool(name)
    if kind == 'res':
        return ctx.enum(name, ctx.imp('hgpl.ast').ASTResult)
    v = [ctx.int(name)]
    return v if kind == 'list' else set(v)


def broken(ctx, pol, table, name, ns, state, types=TYPES):
    """Puts an attribute into the table in a broken way."""
    if state == 'missing':
        # an attribute of that name in another namespace must not answer for it
        R.define(table, pol.sy, pol.TT, name, 'INT', 1, 'ADM_ATT' if ns != 'ADM_ATT' else 'USR_ATT')
        return
    t = ctx.pick('type', types + ['UNKNOWN'])
    if state == 'unset':
        R.define(table, pol.sy, pol.TT, name, t, None, ns)
        return
    kind = ctx.pick('held', [k for k in VALUES if k not in FITS[t]])
    R.define(table, pol.sy, pol.TT, name, t, value(ctx, 'val', kind), ns)


def other(ctx, pol, table, kind):
    if kind == 'int':
        pol.add('INT', ctx.int('o'))
    elif kind == 'float':
        pol.add('FLOAT', ctx.float('o', -8, 8))
    elif kind == 'str':
        pol.add('STRING', ctx.str('o', 1))
    elif kind == 'null':
        pol.add('NULL', 'NULL')
    elif kind == 'setc':
        pol.add('LSET')
        pol.add('INT', ctx.int('o'))
        pol.add('RSET')
    elif kind == 'empty':
        pol.add('LSET')
        pol.add('RSET')
    elif kind == 'same':
        pol.add('USR_ATT', 'x')
    else:
        t = kind[1:]
        R.define(table, pol.sy, pol.TT, 'other', t, value(ctx, 'o', FITS[t][-1]), 'CON_ATT')
        pol.add('CON_ATT', 'other')


def condition(ctx, state, other_kind):
    """One comparison with a broken attribute."""
    pol = R.Pol(ctx)
    table = pol.sy.SymbolTable()
    op = ctx.pick('op', OPS)
    left = ctx.pick('left', [True, False])
    if left:
        pol.add('USR_ATT', 'x')
    else:
        other(ctx, pol, table, other_kind)
    pol.add('OP', op)
    if left:
        other(ctx, pol, table, other_kind)
    else:
        pol.add('USR_ATT', 'x')
    broken(ctx, pol, table, 'x', 'USR_ATT', state)
    st, res, it = R.run_policy(ctx, pol.tree(), table)
    ctx.observe('outcome', st)
    ctx.check(st == 'ok', 'evaluates')
    ctx.check(R.code(ctx, res) == 3, 'UNDEF')
    ctx.check(len(it.get_warnings()) > 0, 'with a warning')


def bare(ctx, state):
    """A broken attribute as the whole condition, alone or under NOT."""
    pol = R.Pol(ctx)
    table = pol.sy.SymbolTable()
    if ctx.pick('not', [False, True]):
        pol.add('NOT_OP', 'NOT')
    ns = ctx.pick('ns', ['USR_ATT', 'OBJ_ATT', 'ENV_ATT', 'ADM_ATT', 'CON_ATT'])
    pol.add(ns, 'x')
    broken(ctx, pol, table, 'x', ns, state)
    st, res, it = R.run_policy(ctx, pol.tree(), table)
    ctx.observe('outcome', st)
    ctx.check(st == 'ok', 'evaluates')
    ctx.check(R.code(ctx, res) == 3, 'UNDEF')
    ctx.check(len(it.get_warnings()) > 0, 'with a warning')


def no_table(ctx):
    """No attributes at all: every condition on one is UNDEF."""
    pol = R.Pol(ctx)
    pol.add('USR_ATT', 'x')
    pol.add('OP', ctx.pick('op', OPS))
    pol.add('INT', ctx.int('o'))
    st, res, it = R.run_policy(ctx, pol.tree(), None)
    ctx.check(st == 'ok', 'evaluates')
    ctx.check(R.code(ctx, res) == 3, 'UNDEF')
    ctx.check(len(it.get_warnings()) > 0, 'with a warning')


def completion(ctx, shape, leaves, states):
    """The same policy with some attributes broken, and with them completed."""
    pol = R.Pol(ctx)
    n = [0]
    used = []

    def leaf(p):
        i = n[0]
        n[0] += 1
        kind = ctx.pick('leaf%d' % i, leaves)
        a = kind + ('0' if i == 0 else ctx.pick('att%d' % i, ['0', '1']))
        if a not in used:
            used.append(a)
        p.add('USR_ATT', a)
        if kind == 'i':
            p.add('OP', ctx.pick('op%d' % i, ['<', '!=']))
            p.add('INT', ctx.int('c%d' % i))
        elif kind == 's':
            p.add('OP', 'IN')
            p.add('LSET')
            p.add('STRING', ctx.str('c%d' % i, 1))
            p.add('RSET')
        elif kind == 'l':
            p.add('OP', 'SUBSET')
            p.add('LSET')
            p.add('INT', ctx.int('c%d' % i))
            p.add('RSET')
        return None

    R.emit(pol, R.shape_of(shape), leaf)
    part, full = pol.sy.SymbolTable(), pol.sy.SymbolTable()
    for a in used:
        t = {'b': 'BOOL', 'i': 'INT', 's': 'STRING', 'l': 'SET'}[a[0]]
        v = value(ctx, 'v' + a, {'b': 'res', 'i': 'int', 's': 'str', 'l': 'list'}[a[0]])
        R.define(full, pol.sy, pol.TT, a, t, v)
        s = ctx.pick('state' + a, states)
        if s == 'present':
            R.define(part, pol.sy, pol.TT, a, t, v)
        elif s == 'unset':
            R.define(part, pol.sy, pol.TT, a, t, None)
        elif s == 'mistyped':
            R.define(part, pol.sy, pol.TT, a, t, 'text' if t != 'STRING' else 7)
    st1, r1, _ = R.run_policy(ctx, pol.tree(), part)
    st2, r2, _ = R.run_policy(ctx, pol.tree(), full)
    ctx.check(st1 == 'ok' and st2 == 'ok', 'evaluates')
    c1, c2 = R.code(ctx, r1), R.code(ctx, r2)
    ctx.observe('results', [c1, c2])
    ctx.check(ctx.Or(c1 == 3, c1 == c2), 'a decision taken without an attribute is the decision with it')


def cases(tier):
    out = [('no_table', {})]
    for state in ('missing', 'unset', 'mistyped'):
        out.append(('bare', {'state': state}))
        for k in ['int', 'float', 'str', 'null', 'setc', 'empty', 'same'] + ['a' + t for t in TYPES]:
            out.append(('condition', {'state': state, 'other_kind': k}))
    every = ['present', 'missing', 'unset', 'mistyped']
    if tier == 'quick':
        plan = [(1, 1, 'bisl', every), (2, 0, 'bisl', every), (2, 1, 'bi', ['present', 'missing']), (3, 0, 'b', ['present', 'missing'])]
    else:
        plan = [(1, 2, 'bisl', every), (2, 1, 'bisl', every), (2, 2, 'bi', every), (3, 0, 'bis', every), (3, 1, 'bi', ['present', 'missing'])]
    for n, k, leaves, states in plan:
        for s in R.shapes(n, k):
            out.append(('completion', {'shape': s, 'leaves': list(leaves), 'states': states}))
    out.sort(key=lambda c: 0 if c[0] == 'completion' else 1)
    return out
