"""C10: the type checker reports exactly the ill-typed comparisons."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast', 'hgpl.symbols', 'hgpl.semantics']
ASSUMPTIONS = ['policies are given as token lists (the lexer is C06)']
BOUNDS = {'quick': 'every operator with every pair of operand kinds; every two = / < comparisons over 3 attributes and 5 kinds of constants; every three comparisons out of 12 forms; two attributes of every two inferred types compared with each other; every level',
          'thorough': 'every two comparisons with any of the 8 operators; every three comparisons out of 20 forms; every four out of 9'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 2400
NUM = ['<', '>', '<=', '>=']
EQ = ['=', '!=']
CONST = ['INT', 'FLOAT', 'STRING', 'NULL', 'SET']
ATT = {'ua': ('USR_ATT', 'a', 'user.a'), 'uA': ('USR_ATT', 'A', 'user.a'), 'ea': ('ENV_ATT', 'a', 'env.a'), 'ub': ('USR_ATT', 'b', 'user.b'),
       'ob': ('OBJ_ATT', 'b', 'object.b')}


def put(ctx, pol, kind, tag):
    if kind in ATT:
        pol.add(ATT[kind][0], ATT[kind][1])
    elif kind == 'INT':
        pol.add('INT', ctx.int('c' + tag))
    elif kind == 'FLOAT':
        pol.add('FLOAT', ctx.float('c' + tag, -8, 8))
    elif kind == 'STRING':
        pol.add('STRING', ctx.str('c' + tag, 1))
    elif kind == 'NULL':
        pol.add('NULL', 'NULL')
    else:
        pol.add('LSET')
        n = ctx.pick('n' + tag, [0, 1])
        if n:
            pol.add('INT', ctx.int('c' + tag))
        pol.add('RSET')


def group(k):
    return 'num' if k in ('INT', 'FLOAT') else k


def judge(types, l, op, r):
    """-> 'error', 'warning' or None; updates the types of the attributes"""
    for k in (l, r):
        if k in ATT:
            types.setdefault(ATT[k][2], None)
    if op == 'IN':
        return 'error' if l == 'SET' or r in ('NULL', 'STRING', 'INT', 'FLOAT') else None
    if op == 'SUBSET':
        return 'error' if [k for k in (l, r) if k not in ATT and k != 'SET'] else None
    if op in NUM:
        if 'STRING' in (l, r) or 'NULL' in (l, r):
            return 'error'
        if l not in ATT and r not in ATT:
            return 'error' if 'SET' in (l, r) else None
    elif l not in ATT and r not in ATT:
        return 'error' if group(l) != group(r) else None
    if l in ATT and r in ATT:
        a, b = ATT[l][2], ATT[r][2]
        if types[a] is None:
            types[a] = types[b]
        elif types[b] is None:
            types[b] = types[a]
        elif group(types[a]) != group(types[b]):
            return 'warning'
        return None
    a = ATT[l if l in ATT else r][2]
    k = r if l in ATT else l
    if types[a] is None:
        types[a] = None if k == 'NULL' else k
    elif group(types[a]) != group(k):
        return 'warning'
    return None


def check(ctx, comparisons, extra=None):
    """comparisons: [(left kind, op, right kind)], joined by AND / OR"""
    sm = ctx.imp('hgpl.semantics')
    er = ctx.imp('hgpl.errors')
    pol = R.Pol(ctx)
    want, types = [], {}
    for i, (l, op, r) in enumerate(comparisons):
        if i:
            pol.add('BOOL_OP', 'OR' if i % 2 else 'AND')
            if i == 1:
                pol.add('NOT_OP', 'NOT')
                pol.add('LPARN')
        put(ctx, pol, l, '%dl' % i)
        t = pol.add('OP', op)
        put(ctx, pol, r, '%dr' % i)
        if i == 1:
            pol.add('RPARN')
        w = judge(types, l, op, r)
        if w is not None:
            want.append((w, t.pos))
    if extra:
        pol.add('BOOL_OP', 'AND')
        pol.add(ATT[extra][0], ATT[extra][1])
        types.setdefault(ATT[extra][2], None)
    tree = pol.tree()
    tc = sm.TypeChecker(tree, 'the policy')
    ctx.check(tc.get_result().name == 'NONE', 'no result before the check')
    issues = tc.check()
    got = [('error' if e.type == er.ErrorType.ERROR else ('warning' if e.type == er.ErrorType.WARN else '?'), e.pos) for e in issues]
    ctx.observe('issues', got)
    # comparisons are examined in the order of the text: the tree is (c0 OR (NOT c1 AND c2 ..))
    ctx.check(sorted(got, key=lambda x: x[1]) == sorted(want, key=lambda x: x[1]), 'exactly the ill-typed comparisons are reported')
    ctx.check(sorted(e.pos for e in tc.get_errors()) == sorted(p for w, p in want if w == 'error'), 'get_errors')
    ctx.check(sorted(e.pos for e in tc.get_warnings()) == sorted(p for w, p in want if w == 'warning'), 'get_warnings')
    ctx.check(len(tc.get_issues()) == len(want), 'get_issues')
    res = 'PASS' if not want else ('ERROR' if [1 for w, p in want if w == 'error'] else 'WARN')
    ctx.check(tc.get_result().name == res, 'result')
    st = tc.get_symbol_table()
    ctx.check(sorted(st.names()) == sorted(types), 'the attributes of the policy')
    for n in types:
        ctx.check(st.lookup_type(n).name == (types[n] or 'UNKNOWN'), 'inferred type')
    # levels
    level = ctx.enum('level', er.ErrorType)
    try:
        sm.TypeChecker(tree, 'the policy').check(level)
        raised = False
    except er.TypeCheckerError:
        raised = True
    low = {'PASS': [], 'WARN': ['NONE', 'INFO', 'WARN'], 'ERROR': ['NONE', 'INFO', 'WARN', 'ERROR']}[res]
    ctx.check(raised == ctx.Or(False, *[level == getattr(er.ErrorType, x) for x in low]), 'raises exactly when some issue has at least the level')


def single(ctx, ops, lefts, rights):
    check(ctx, [(ctx.pick('l', lefts), ctx.pick('op', ops), ctx.pick('r', rights))], ctx.pick('bare', [None, 'ob']))


def double(ctx, first, ops, kinds):
    op = ctx.pick('op', ops)
    l = ctx.pick('l', kinds)
    check(ctx, [tuple(first), (l, op, ctx.pick('r', kinds))])


def typed(ctx, op, second):
    """two attributes compared with constants first, then with each other"""
    l = ctx.pick('l', ['ua', 'ub'])
    check(ctx, [('ua', '=', ctx.pick('k1', CONST)), (second, '!=', 'ub'), (l, op, 'ub' if l == 'ua' else 'uA'), ('ub', '=', 'ea'), ('ea', '=', 'INT')])


def forms(n):
    out = [('ua', '<', 'INT'), ('ua', '=', 'STRING'), ('STRING', '!=', 'ub'), ('ua', '=', 'ub'), ('ub', '!=', 'FLOAT'), ('uA', '=', 'SET'), ('ub', '=', 'ea'), ('ea', '=', 'STRING'),
           ('NULL', '=', 'ua'), ('ea', '>=', 'ua'), ('ub', 'IN', 'ea'), ('ub', '<', 'STRING'),
           ('ua', 'SUBSET', 'SET'), ('FLOAT', '>', 'ea'), ('ub', '<', 'uA'), ('ea', '!=', 'SET'), ('ua', '=', 'ua'), ('INT', '=', 'STRING'), ('SET', '=', 'ub'), ('ea', '<=', 'INT')]
    return out[:n]


def chain(ctx, first, n, rest):
    fs = forms(n)
    check(ctx, [tuple(fs[first])] + [fs[ctx.pick('f%d' % i, list(range(n)))] for i in range(rest)])


def cases(tier):
    out = []
    for ops in (NUM, EQ, ['IN', 'SUBSET']):
        for l in (['ua', 'uA', 'ob'], CONST):
            for r in (['uA', 'ea', 'ub'], CONST):
                out.append(('single', {'ops': ops, 'lefts': l, 'rights': r}))
    for k in CONST:
        for op in (['=', '<='] if tier == 'quick' else NUM + EQ + ['IN', 'SUBSET']):
            out.append(('typed', {'op': op, 'second': k}))
    kinds = ['ua', 'ub', 'ea'] + CONST
    if tier == 'quick':
        for l in ['ua', 'uA', 'INT', 'STRING', 'SET', 'NULL']:
            for r in ['ub', 'ea', 'ua', 'FLOAT', 'STRING', 'SET', 'NULL']:
                if l in ATT or r in ATT:
                    out.append(('double', {'first': [l, '=' if l in ATT else '<', r], 'ops': ['=', '>'], 'kinds': ['ua', 'ub', 'INT', 'STRING', 'SET', 'NULL']}))
    else:
        for l in ['ua', 'uA', 'INT', 'STRING', 'SET', 'NULL']:
            for r in ['ub', 'ea', 'ua', 'FLOAT', 'STRING', 'SET', 'NULL']:
                for op in ('=', '<', 'IN'):
                    out.append(('double', {'first': [l, op, r], 'ops': NUM + EQ + ['IN', 'SUBSET'], 'kinds': kinds}))
    for f in range(12 if tier == 'quick' else 20):
        out.append(('chain', {'first': f, 'n': 12 if tier == 'quick' else 20, 'rest': 2}))
    if tier != 'quick':
        for f in range(9):
            out.append(('chain', {'first': f, 'n': 9, 'rest': 3}))
    return out
