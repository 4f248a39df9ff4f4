"""C08: letter case and whitespace do not change what a policy means."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast', 'hgpl.symbols', 'hgpl.interpreting']
ASSUMPTIONS = ['letters: those with a one-to-one case mapping in U+0000..U+00FF']
BOUNDS = {'quick': '24 policies (12 of them malformed), every re-casing of all their keyword, prefix and attribute name letters at once, every attribute value; at each gap between tokens 0 to 2 whitespace characters of any kind (at least one between words)',
          'thorough': 'as quick, with 0 to 3 whitespace characters at every two gaps at once'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 2400
SPACE = ' \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0'

# tokens of the policies; attributes: a:i.. integer, b:.. boolean, s:.. string, l:.. set
GOOD = [
    ['user.iAge', '>=', '18', 'AND', 'NOT', 'object.bx'],
    ['env.ia', 'IN', '{', '1', ',', '"b C"', ',', 'NULL', '}', 'OR', 'user.sName', '=', '"A b"'],
    ['connect.lq', 'SUBSET', 'admin.lr'],
    ['TRUE'],
    ['NOT', '(', 'UNDEF', 'OR', 'FALSE', ')'],
    ['NOT', 'UNDEF', 'AND', 'user.bB'],
    ['user.s\xe9t\xe9', '!=', '"x"'],
    ['-5', '<', 'user.i_n1', 'OR', 'NULL', '=', 'NULL'],
    ['{', '}', '=', 'user.lq'],
    ['"a"', 'IN', 'object.lZ', 'AND', 'object.iz', '<=', '2.5'],
    ['(', 'user.ba', ')', 'OR', 'FALSE'],
    ['user.missing', '=', '1', 'OR', 'user.ba'],
]
BAD = [
    ['AND', 'user.ba'],
    ['user.ba', 'NOT'],
    ['user.ia', 'IN'],
    ['usr.ba'],
    ['NOTT', 'user.ba'],
    ['TRUE', 'TRUE'],
    ['user.ba', 'OR', 'OR', 'user.bb'],
    ['(', 'TRUE'],
    ['NULL'],
    ['{', 'user.ia', '}', '=', '{', '}'],
    ['user.ia', 'INN', '{', '1', '}'],
    ['SUBSET'],
]


def is_word(w):
    return w[0].isalpha() or w[0] == '_'


def wordy(w):
    return w[0].isalnum() or w[0] == '-'


def recase(ctx, w, tag):
    """w with every letter in symbolic case"""
    out = ''
    for i, c in enumerate(w):
        if c.isalpha():
            out = out + ctx.chars('%s.%d' % (tag, i), 1, c.lower() + c.upper())
        else:
            out = out + c
    return out


def meaning(ctx, text, values):
    """-> 'rejected', or (outcome, result)"""
    lx, pa, er, sy = ctx.imp('hgpl.lexing'), ctx.imp('hgpl.parsing'), ctx.imp('hgpl.errors'), ctx.imp('hgpl.symbols')
    try:
        lexer = lx.Lexer(text)
        tree = pa.Parser(lexer).parse()
    except (er.LexerError, er.ParserError):
        return 'rejected', 0
    table = sy.SymbolTable()
    for ns, name, stype, v in values:
        R.define(table, sy, lx.TokenType, name, stype, list(v) if isinstance(v, list) else v, ns)
    it = ctx.imp('hgpl.interpreting').Interpreter(tree, text)
    st, r = R.run_interp(ctx, it, table)
    return st, (R.code(ctx, r) if st == 'ok' else 0)


def attributes(ctx, words):
    out = []
    seen = []
    for w in words:
        if '.' not in w or not w[0].isalpha():
            continue
        p, name = w.split('.')
        if p not in R.ATT_OF or (p, name) in seen or name == 'missing':
            continue
        seen.append((p, name))
        ns = R.ATT_OF[p]
        k = name[0]
        if k == 'i':
            v = ('INT', ctx.int('v.' + w))
        elif k == 'b':
            v = ('BOOL', ctx.enum('v.' + w, ctx.imp('hgpl.ast').ASTResult))
        elif k == 's':
            v = ('STRING', ctx.str('v.' + w, 1) if ctx.pick('vs.' + w, [True, False]) else 'A b')
        else:
            v = ('SET', [ctx.int('v.' + w)] if ctx.pick('vs.' + w, [True, False]) else ['a'])
        out.append((ns, name, v[0], v[1]))
    return out


def casing(ctx, words):
    values = attributes(ctx, words)
    plain = ' '.join(words)
    text = ''
    for i, w in enumerate(words):
        text = text + (' ' if i else '') + (recase(ctx, w, 'w%d' % i) if is_word(w) else w)
    a = meaning(ctx, plain, values)
    b = meaning(ctx, text, values)
    ctx.observe('meaning', [a[0], a[1], b[0], b[1]])
    ctx.check(a[0] == b[0], 'accepted alike')
    ctx.check(a[1] == b[1], 'same meaning')


def spacing(ctx, words, gaps, top):
    values = attributes(ctx, words)
    plain = ' '.join(words)
    text = ''
    for i in range(len(words) + 1):
        must = 0 < i < len(words) and wordy(words[i - 1]) and wordy(words[i])
        # operators of two characters would merge otherwise
        if i in gaps:
            n = ctx.pick('n%d' % i, list(range(1 if must else 0, top + 1)))
            text = text + ctx.chars('g%d' % i, n, SPACE)
        elif 0 < i < len(words):
            text = text + ' '
        if i < len(words):
            text = text + words[i]
    a = meaning(ctx, plain, values)
    b = meaning(ctx, text, values)
    ctx.observe('meaning', [a[0], a[1], b[0], b[1]])
    ctx.check(a[0] == b[0], 'accepted alike')
    ctx.check(a[1] == b[1], 'same meaning')


def inside_string(ctx, n):
    """Letter case and spaces inside a string constant are significant."""
    s = ctx.chars('s', n, 'aAbB  xX_')
    v = ctx.chars('v', n, 'aAbB  xX_')
    got = meaning(ctx, 'user.s = "' + s + '"', [('USR_ATT', 's', 'STRING', v)])
    ctx.observe('r', got[1])
    ctx.check(got[0] == 'ok', 'accepted')
    ctx.check(got[1] == ctx.If(s == v, 1, 2), 'string constants keep case and spaces')


def cases(tier):
    out = [('inside_string', {'n': n}) for n in (1, 2, 3)]
    for p in GOOD + BAD:
        out.append(('casing', {'words': p}))
        if tier == 'quick':
            for g in range(0, len(p) + 1, 3):
                out.append(('spacing', {'words': p, 'gaps': list(range(g, min(g + 3, len(p) + 1))), 'top': 2 if len(p) < 4 else 1}))
            out.append(('spacing', {'words': p, 'gaps': [len(p) // 2], 'top': 2}))
        else:
            for g in range(0, len(p)):
                out.append(('spacing', {'words': p, 'gaps': [g, g + 1], 'top': 3}))
            for g in range(0, len(p) - 1):
                out.append(('spacing', {'words': p, 'gaps': [g, g + 2], 'top': 2}))
    return out
