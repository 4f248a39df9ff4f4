"""C09: encoding a policy tree and decoding it gives back the same policy."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast', 'hgpl.symbols', 'hgpl.interpreting']
ASSUMPTIONS = ['floats are multiples of 2^-20 with magnitude up to 2^30 (exact doubles); NaN and infinities are outside',
               'opaque texts are valid Unicode of any length up to 70000 bytes, their characters are not inspected',
               "the closing token of a set constant is not part of the format"]
BOUNDS = {'quick': '16 policy forms covering every node kind with symbolic values (integers unbounded, texts up to 70000 bytes), every token position, any number of nodes created before (state set symbolically, and 66000 really created)',
          'thorough': 'same, 26 forms'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 1200
WORDS = {'NOT': 'NOT_OP', 'TRUE': 'BOOL', 'FALSE': 'BOOL', 'UNDEF': 'BOOL', 'AND': 'BOOL_OP', 'OR': 'BOOL_OP', '{': 'LSET', '}': 'RSET', ',': 'COMMA',
         '(': 'LPARN', ')': 'RPARN', 'NULL': 'NULL'}
FORMS = ['TRUE', 'NOT FALSE', 'UNDEF OR USR', 'USR = INT', 'FLOAT < OBJ', 'STR != ENV', 'NULL = ADM', 'CON IN { INT , STR }', '{ } SUBSET USR',
         '{ NULL , FLOAT } = { INT }', 'NOT ( USR AND OBJ )', 'USR >= INT AND OBJ <= FLOAT', 'ENV > INT OR NOT ADM', 'TEXT = USR', 'TNAME != NULL', 'INT = INT OR CON',
         # thorough
         '{ TEXT , INT } = USR', 'USR IN { STR , STR , STR }', '( USR OR OBJ ) AND ( ENV OR ADM )', 'NOT ( NOT ( USR ) )', 'INT IN USR AND FLOAT IN OBJ', 'TEXT = TEXT',
         'TNAME = TEXT', 'USR SUBSET { FLOAT , NULL , INT }', 'NOT UNDEF OR FALSE AND TRUE', 'FLOAT = FLOAT AND INT != STR']
ATT = {'USR': 'USR_ATT', 'OBJ': 'OBJ_ATT', 'ENV': 'ENV_ATT', 'ADM': 'ADM_ATT', 'CON': 'CON_ATT'}


def build(ctx, form, positions):
    """-> tree, condition under which it fits the format"""
    pol = R.Pol(ctx)
    fits = []
    for j, w in enumerate(FORMS[form].split()):
        tag = 'w%d' % j
        if w in ATT:
            t = pol.add(ATT[w], ctx.pick(tag, ['age', 'x', 'm\xe9tier', '\u4e2d_1']))
        elif w == 'TNAME':
            s = ctx.text(tag, min_n=1)
            fits.append(size(ctx, s) <= 65535)
            t = pol.add('USR_ATT', s)
        elif w == 'INT':
            v = ctx.int(tag)
            fits.append(ctx.And(v >= -2 ** 31, v <= 2 ** 31 - 1))
            t = pol.add('INT', v)
        elif w == 'FLOAT':
            t = pol.add('FLOAT', ctx.float(tag, -2 ** 30, 2 ** 30, 2 ** 20))
        elif w == 'STR':
            t = pol.add('STRING', ctx.str(tag, 2, 'ascii'))
        elif w == 'TEXT':
            s = ctx.text(tag)
            fits.append(size(ctx, s) <= 65535)
            t = pol.add('STRING', s)
        elif w in WORDS:
            t = pol.add(WORDS[w], w if w.isalpha() else None)
        else:
            t = pol.add('OP', w)
        if j in positions:
            t.pos = ctx.int('pos%d' % j, 0)
            if w not in (')', '(', '}', ','):
                fits.append(t.pos <= 65535)
    return pol.tree(), ctx.And(True, *fits)


def size(ctx, s):
    return len(s.encode('utf-8'))


def equal_trees(ctx, a, b):
    ka, kb = a.children(), b.children()
    ctx.check(a.__class__ is b.__class__, 'node kind')
    ctx.check(len(ka) == len(kb), 'number of children')
    ctx.check(a.token.type == b.token.type, 'token type')
    ctx.check(a.token.pos == b.token.pos, 'token position')
    ctx.check(ctx.same(a.token.value, b.token.value), 'token value')
    ctx.check((a.left() is None) == (b.left() is None) and (a.right() is None) == (b.right() is None), 'left and right')
    for x, y in zip(ka, kb):
        equal_trees(ctx, x, y)


def roundtrip(ctx, form, positions, base64, before):
    ast = ctx.imp('hgpl.ast')
    if before == 'set' and hasattr(ast.ASTNode, '_last_id'):
        ast.ASTNode._last_id = ctx.int('created', -1, 200000)
    elif before == 'real':
        lx = ctx.imp('hgpl.lexing')
        t = lx.Token(lx.TokenType.NULL, 0, 'NULL')
        for _ in range(66000):
            ast.NullValNode(t)
    tree, fits = build(ctx, form, positions)
    E = ast.ASTEncoder
    try:
        data = E.encode(tree, base64)
        back = E.decode(data, base64)
        refused = False
    except Exception:
        refused = True
    ctx.observe('refused', refused)
    if refused:
        ctx.check(ctx.Not(fits), 'a tree that fits the format is encoded and decoded')
        return
    ctx.check(fits, 'a tree that does not fit the format is refused')
    equal_trees(ctx, tree, back)


def evaluates(ctx, form, base64):
    """The decoded policy evaluates like the original."""
    ast = ctx.imp('hgpl.ast')
    tree, fits = build(ctx, form, [])
    ctx.assume(fits)
    back = ast.ASTEncoder.decode(ast.ASTEncoder.encode(tree, base64), base64)
    sy, lx = ctx.imp('hgpl.symbols'), ctx.imp('hgpl.lexing')
    outs = []
    n = ctx.int('n')
    kind = ctx.pick('kind', ['BOOL', 'INT', 'STRING', 'SET'])
    b = ctx.enum('b', ast.ASTResult)
    s = ctx.chars('s', 1, 'ascii')
    for t in (tree, back):
        table = sy.SymbolTable()
        for ns in ATT.values():
            for name in ('age', 'x', 'm\xe9tier', '\u4e2d_1'):
                R.define(table, sy, lx.TokenType, name, kind, {'BOOL': b, 'INT': n, 'STRING': s, 'SET': [n, s]}[kind], ns)
        st, r, it = R.run_policy(ctx, t, table)
        outs.append((st, R.code(ctx, r) if st == 'ok' else 0, len(it.get_warnings())))
    ctx.observe('outcome', outs[0])
    ctx.check(outs[0][0] == outs[1][0] and outs[0][2] == outs[1][2], 'same kind of outcome')
    ctx.check(outs[0][1] == outs[1][1], 'same result')


def again(ctx, form):
    """Encoding leaves the tree as it was: encoding it again, and encoding what was decoded, gives the same bytes."""
    ast = ctx.imp('hgpl.ast')
    tree, fits = build(ctx, form, [])
    ctx.assume(fits)
    E = ast.ASTEncoder
    one = E.encode(tree)
    two = E.encode(tree)
    ctx.check(ctx.same(one, two), 'encoding again gives the same bytes')
    ctx.check(ctx.same(E.encode(E.decode(one)), one), 'encoding the decoded tree gives the same bytes')
    ctx.observe('n', len(one))


def cases(tier):
    out = [('roundtrip', {'form': 1, 'positions': [], 'base64': False, 'before': 'real'})]
    n = 16 if tier == 'quick' else len(FORMS)
    for f in range(n):
        words = FORMS[f].split()
        big = 'TEXT' in words or 'TNAME' in words
        out.append(('roundtrip', {'form': f, 'positions': [], 'base64': False, 'before': 'set'}))
        out.append(('roundtrip', {'form': f, 'positions': list(range(0, len(words))) if len(words) < 5 else [0, 3], 'base64': False, 'before': None}))
        out.append(('roundtrip', {'form': f, 'positions': [1], 'base64': True, 'before': None}))
        if not big:
            out.append(('evaluates', {'form': f, 'base64': f % 2 == 0}))
        out.append(('again', {'form': f}))
    return out
