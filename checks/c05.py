"""C05: an evaluation depends only on the policy and the attributes given."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast', 'hgpl.symbols', 'hgpl.interpreting']
ASSUMPTIONS = ['policies are given as token lists (the lexer is C06)',
               'warnings are compared by rule, position and message']
BOUNDS = {'quick': '14 policy forms with symbolic constants; histories of 1 earlier evaluation (2 for the small forms) by the same or another interpreter, of this or another policy; an evaluation without any attributes after one with them; every attribute missing, unset, mistyped or present with any value',
          'thorough': 'same forms; histories of 2 earlier evaluations'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 2400

# forms: words; a:<ns>:<name> attribute, ci/cs/cf constant, everything else a token
FORMS = {
    'bare': 'a:USR_ATT:b',
    'not': 'NOT a:USR_ATT:b',
    'const': 'TRUE',
    'numc': 'ci < ci',
    'lt': 'a:USR_ATT:i < ci',
    'eqs': 'cs = a:OBJ_ATT:s',
    'nulls': 'a:USR_ATT:s != NULL',
    'in': 'a:ENV_ATT:i IN { ci , cs }',
    'sub': 'a:USR_ATT:l SUBSET { ci , ci }',
    'setset': '{ ci , NULL } = a:USR_ATT:l',
    'two': 'a:USR_ATT:b AND a:USR_ATT:i > ci',
    'orin': 'NOT ( a:USR_ATT:b OR a:USR_ATT:i IN a:OBJ_ATT:l )',
    'bad': 'a:USR_ATT:i OR a:USR_ATT:b',
    'attatt': 'a:USR_ATT:i >= a:CON_ATT:i',
}
WORDS = {'NOT': 'NOT_OP', 'TRUE': 'BOOL', 'FALSE': 'BOOL', 'UNDEF': 'BOOL', 'AND': 'BOOL_OP', 'OR': 'BOOL_OP', '{': 'LSET', '}': 'RSET', ',': 'COMMA',
         '(': 'LPARN', ')': 'RPARN', 'NULL': 'NULL'}
TYPE = {'b': 'BOOL', 'i': 'INT', 's': 'STRING', 'l': 'SET'}


def plan(ctx, form):
    """-> [(token type, value)], attributes"""
    out, atts = [], []
    for j, w in enumerate(FORMS[form].split()):
        if w.startswith('a:'):
            _, ns, name = w.split(':')
            out.append((ns, name))
            if (ns, name) not in atts:
                atts.append((ns, name))
        elif w == 'ci':
            out.append(('INT', ctx.int('c%d' % j)))
        elif w == 'cs':
            out.append(('STRING', ctx.str('c%d' % j, 1)))
        elif w in WORDS:
            out.append((WORDS[w], w if w.isalpha() else None))
        else:
            out.append(('OP', w))
    return out, atts


def tree(ctx, toks):
    pol = R.Pol(ctx)
    for t, v in toks:
        pol.add(t, v)
    return pol.tree()


def fill(ctx, tag, atts, states):
    """-> function building a fresh symbol table with one choice of attribute values, and the values themselves"""
    items = []
    for ns, name in atts:
        s = ctx.pick('%s.%s%s' % (tag, ns, name), states)
        k = name[0]
        v = None
        if s == 'present':
            if k == 'b':
                v = ctx.enum('%s.%s%s.v' % (tag, ns, name), ctx.imp('hgpl.ast').ASTResult)
            elif k == 'i':
                v = ctx.int('%s.%s%s.v' % (tag, ns, name))
            elif k == 's':
                v = ctx.chars('%s.%s%s.v' % (tag, ns, name), 1)
            else:
                v = [ctx.int('%s.%s%s.v' % (tag, ns, name)), 5]
        elif s == 'mistyped':
            v = 'text' if k != 's' else 7
        items.append((ns, name, s, v))

    def build():
        sy = ctx.imp('hgpl.symbols')
        TT = ctx.imp('hgpl.lexing').TokenType
        table = sy.SymbolTable()
        for ns, name, s, v in items:
            if s != 'missing':
                R.define(table, sy, TT, name, TYPE[name[0]], list(v) if isinstance(v, list) else v, ns)
        return table
    return build, items


def outcome(ctx, it, table):
    st, r = R.run_interp(ctx, it, table)
    warns = [(w.rule, w.pos, w.message) for w in it.get_warnings()]
    return st, (R.code(ctx, r) if st == 'ok' else (r.rule, r.pos, r.message)), warns


def history(ctx, form, k, states, last):
    toks, atts = plan(ctx, form)
    ip = ctx.imp('hgpl.interpreting')
    shared = tree(ctx, toks)
    its = [ip.Interpreter(shared, 'the policy'), ip.Interpreter(shared, 'the policy'),
           ip.Interpreter(tree(ctx, [('USR_ATT', 'i'), ('OP', '<'), ('INT', 3), ('BOOL_OP', 'OR'), ('USR_ATT', 'b')]), 'the policy')]
    for i in range(k):
        build, items = fill(ctx, 'h%d' % i, atts, states)
        outcome(ctx, its[ctx.pick('by%d' % i, [0, 1, 2])], build())
    build, items = fill(ctx, 'last', atts, last)
    table = build()
    got = outcome(ctx, its[0], table)
    want = outcome(ctx, ip.Interpreter(tree(ctx, toks), 'the policy'), build())
    ctx.observe('outcome', [got[0], got[1], len(got[2])])
    ctx.check(got[0] == want[0], 'same kind of outcome as a fresh policy')
    ctx.check(ctx.same(got[1], want[1]), 'same result as a fresh policy')
    ctx.check(len(got[2]) == len(want[2]), 'same number of warnings as a fresh policy')
    for g, w in zip(got[2], want[2]):
        ctx.check(ctx.And(g[0] == w[0], g[1] == w[1], g[2] == w[2]), 'same warnings as a fresh policy')
    # the attribute values are unchanged
    for ns, name, s, v in items:
        if s == 'missing':
            continue
        sym = table.lookup({'USR_ATT': 'user.', 'OBJ_ATT': 'object.', 'ENV_ATT': 'env.', 'CON_ATT': 'connect.'}[ns] + name)
        ctx.check(sym is not None and sym.type.name == TYPE[name[0]], 'attribute and type kept')
        if s == 'unset':
            ctx.check(sym.value is None, 'value kept')
        else:
            ctx.check(ctx.same(sym.value, v), 'value kept')
    ctx.check(len(table.names()) == len([1 for x in items if x[2] != 'missing']), 'no attribute added')


def absent(ctx, form, states):
    """After an evaluation with attributes, one with no attributes at all; lists of warnings handed out stay as they were."""
    toks, atts = plan(ctx, form)
    ip = ctx.imp('hgpl.interpreting')
    it = ip.Interpreter(tree(ctx, toks), 'the policy')
    build, items = fill(ctx, 'h', atts, states)
    outcome(ctx, it, build())
    kept = it.get_warnings()
    before = [(w.rule, w.pos, w.message) for w in kept]
    er = ctx.imp('hgpl.errors')

    def run(i):
        try:
            r = ('ok', R.code(ctx, i.evaluate()))
        except er.InterpreterError as e:
            r = ('error', (e.rule, e.pos, e.message))
        return r + ([(w.rule, w.pos, w.message) for w in i.get_warnings()],)
    got = run(it)
    want = run(ip.Interpreter(tree(ctx, toks), 'the policy'))
    ctx.observe('outcome', [got[0], got[1], len(got[2])])
    ctx.check(ctx.same(list(got), list(want)), 'same outcome without attributes as a fresh policy')
    ctx.check(ctx.same([(w.rule, w.pos, w.message) for w in kept], before), 'warnings handed out earlier stay as they were')
    it.get_warnings().clear()
    ctx.check(ctx.same([(w.rule, w.pos, w.message) for w in it.get_warnings()], got[2]), 'the list of warnings is a copy of its own')


def cases(tier):
    every = ['present', 'missing', 'unset', 'mistyped']
    out = []
    small = ('bare', 'not', 'const', 'numc')
    for f in FORMS:
        if tier == 'quick':
            deep = f in small
            multi = f in ('two', 'orin', 'attatt', 'bad')
            out.append(('history', {'form': f, 'k': 2 if deep else 1, 'states': ['present', 'missing'] if multi else every,
                                    'last': ['present', 'missing'] if f in ('orin', 'bad') else every}))
        else:
            for l in every:
                out.append(('history', {'form': f, 'k': 2, 'states': ['present', 'missing', 'mistyped'] if f == 'orin' else every, 'last': [l]}))
                out.append(('history', {'form': f, 'k': 1, 'states': every, 'last': every}))
    for f in FORMS:
        out.append(('absent', {'form': f, 'states': every if f != 'orin' else ['present', 'missing']}))
    out.reverse()
    return out
