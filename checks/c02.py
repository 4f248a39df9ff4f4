"""C02: comparisons of numbers, strings and NULL."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast', 'hgpl.symbols', 'hgpl.interpreting']
ASSUMPTIONS = ['policies are given as token lists (the lexer is C06)',
               'floats are multiples of 2^-20 with magnitude up to 2^30 (each an exact double); NaN and infinities are outside']
BOUNDS = {'quick': 'all six operators, all pairs of operand kinds; integers unbounded; strings: any two texts of up to 2 characters, and opaque texts of any length up to 70000 bytes',
          'thorough': 'as quick, strings of up to 4 characters'}
BUDGET_QUICK = 120
BUDGET_THOROUGH = 1200
OPS = ['=', '!=', '<', '>', '<=', '>=']
NUM = ['ic', 'fc', 'ia', 'fa', 'xa']
STR = ['sc', 'sa', 'tc', 'ta']


def operand(ctx, p, table, i, kind, slen):
    """-> (reference kind, value)"""
    name = 'op%d' % i
    ns = ['USR_ATT', 'CON_ATT'][i]
    if kind[0] == 'n':
        p.add('NULL', 'NULL')
        return 'null', None
    if kind[0] == 's':
        v = ctx.str(name, slen)
    elif kind[0] == 't':
        v = ctx.text(name)
    elif kind[0] == 'i':
        v = ctx.int(name)
    else:
        v = ctx.float(name, -2 ** 30, 2 ** 30, 2 ** 20)
    if kind[1] == 'c':
        p.add({'i': 'INT', 'f': 'FLOAT', 's': 'STRING', 't': 'STRING'}[kind[0]], v)
    else:
        # an attribute declared INT may hold a float ('x')
        R.define(table, p.sy, p.TT, name, {'i': 'INT', 'f': 'FLOAT', 'x': 'INT', 's': 'STRING', 't': 'STRING'}[kind[0]], v, ns)
        p.add(ns, name)
    return ('str' if kind[0] in 'st' else 'num'), v


def compare(ctx, left, rights, slen):
    right = ctx.pick('right', rights)
    op = ctx.pick('op', OPS)
    pol = R.Pol(ctx)
    table = pol.sy.SymbolTable()
    lk, l = operand(ctx, pol, table, 0, left, slen)
    pol.add('OP', op)
    rk, r = operand(ctx, pol, table, 1, right, slen)
    st, res, it = R.run_policy(ctx, pol.tree(), table)
    const = left[1] == 'c' or right[1] == 'c'
    ctx.check(st == 'ok', 'evaluates')
    got = R.code(ctx, res)
    ctx.observe('result', got)
    ctx.check(ctx.Or(got == 1, got == 2, got == 3), 'a decision')
    if lk == 'num' and rk == 'num':
        want = {'=': l == r, '!=': l != r, '<': l < r, '>': l > r, '<=': l <= r, '>=': l >= r}[op]
        ctx.check(got == ctx.If(want, 1, 2), 'numeric comparison')
    elif lk == rk and op in ('=', '!='):
        want = (l == r) if lk == 'str' else True
        ctx.check(got == ctx.If(want, 1 if op == '=' else 2, 2 if op == '=' else 1), 'equality of strings or NULL')
    elif const:
        ctx.check(got == 3, 'operands of different kinds give UNDEF')
        ctx.check(len(it.get_warnings()) > 0, 'with a warning')


def cases(tier):
    slen = 2 if tier == 'quick' else 4
    allk = NUM + STR + ['nc']
    out = []
    for l in allk:
        for part in (NUM, [x for x in STR + ['nc'] if x[0] != 't' or l[0] != 's']):
            rights = [x for x in part if not (l[0] == 't' and x[0] == 's')]
            out.append(('compare', {'left': l, 'rights': rights, 'slen': slen}))
    return out
