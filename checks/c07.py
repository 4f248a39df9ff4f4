"""C07: the parser accepts exactly the grammar and builds the tree it prescribes."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast']
ASSUMPTIONS = ['token values fit their type as the lexer produces them; positions are those of a text with one blank between tokens']
BOUNDS = {'quick': 'every sequence of up to 5 tokens of all 17 lexed types; up to 7 tokens with one attribute and one constant type; set constants of up to 5 elements, AND/OR chains of up to 10 tokens, nestings of 3 parentheses and chains of 3 comparisons over few kinds',
          'thorough': 'every sequence of up to 6 tokens of all 17 lexed types; up to 9 tokens with one attribute and one constant type'}
BUDGET_QUICK = 240
BUDGET_THOROUGH = 2400
SMALL = ['OP', 'BOOL_OP', 'NOT_OP', 'USR_ATT', 'BOOL', 'INT', 'LSET', 'RSET', 'LPARN', 'RPARN', 'COMMA']


def sequence(ctx, n, names, first=None, second=None, prefix=()):
    TT = ctx.imp('hgpl.lexing').TokenType
    pa = ctx.imp('hgpl.parsing')
    er = ctx.imp('hgpl.errors')
    toks = R.symbolic_tokens(ctx, n, names, prefix)
    if first is not None:
        ctx.assume(ctx.Or(*[toks[1].type == getattr(TT, x) for x in first]))
    if second is not None:
        ctx.assume(ctx.Or(*[toks[2].type == getattr(TT, x) for x in second]))
    try:
        tree = pa.Parser(list(toks), 'policy text').parse()
    except er.ParserError:
        tree = None
    try:
        want = R.RefParser(toks, TT).parse()
    except R.Reject:
        want = None
    ctx.observe('accepted', tree is not None)
    ctx.check((tree is None) == (want is None), 'accepted exactly the sequences the grammar derives')
    if tree is not None:
        ctx.check(R.tree_same(tree, want, toks), 'the tree the grammar prescribes')


def cases(tier):
    out = []
    full, small = (5, 7) if tier == 'quick' else (6, 9)
    rest = [x for x in R.LEXED if x not in ('LPARN', 'NOT_OP', 'LSET', 'USR_ATT', 'CON_ATT', 'INT', 'OBJ_ATT', 'ENV_ATT', 'NULL', 'STRING')]
    groups = [['LPARN'], ['NOT_OP'], ['LSET'], ['USR_ATT'], ['CON_ATT'], ['INT'], ['OBJ_ATT', 'NULL'], ['ENV_ATT', 'STRING'], rest]
    for n in range(0, full + 1):
        if n < 3:
            out.append(('sequence', {'n': n, 'names': R.LEXED}))
        else:
            for g in groups:
                out.append(('sequence', {'n': n, 'names': R.LEXED, 'first': g}))
    for n in range(full + 1, small + 1):
        for g in (['LPARN'], ['NOT_OP'], ['LSET'], ['USR_ATT'], ['INT'], ['BOOL']):
            for h in ([None] if n < 8 else [['LPARN', 'OP', 'RSET'], ['NOT_OP', 'BOOL_OP', 'BOOL'], ['LSET', 'USR_ATT', 'INT', 'RPARN', 'COMMA']]):
                out.append(('sequence', {'n': n, 'names': SMALL, 'first': g, 'second': h}))
    more = 1 if tier == 'quick' else 3
    # longer sequences of few kinds: set constants, AND / OR chains with NOT and parentheses, chains of comparisons
    for n in range(1, 8 + more):
        out.append(('sequence', {'n': n, 'names': ['INT', 'COMMA', 'RSET'], 'prefix': ['USR_ATT', ['OP', 'IN'], 'LSET']}))
    for n in range(1, 5 + more):
        out.append(('sequence', {'n': n, 'names': ['STRING', 'COMMA', 'RSET'], 'prefix': ['LSET', 'FLOAT', 'COMMA', 'NULL', 'COMMA', 'INT', 'COMMA', 'STRING']}))
    out.append(('sequence', {'n': 4, 'names': ['BOOL_OP', 'RPARN', 'OP', 'COMMA', 'LSET', 'RSET', 'INT'], 'prefix': ['LSET', 'FLOAT', 'RSET', 'OP', 'LSET', 'RSET']}))
    out.append(('sequence', {'n': 8 + more, 'names': ['BOOL_OP', 'BOOL']}))
    for p in (['BOOL_OP', 'BOOL', 'RPARN'], ['BOOL_OP', 'NOT_OP', 'CON_ATT', 'RPARN']):
        out.append(('sequence', {'n': 6 + more, 'names': p, 'prefix': ['LPARN', 'LPARN', 'BOOL']}))
        out.append(('sequence', {'n': 5 + more, 'names': p, 'prefix': ['NOT_OP', 'LPARN', 'LPARN', 'NOT_OP', 'LPARN', 'CON_ATT']}))
    out.append(('sequence', {'n': 5 + more, 'names': ['BOOL_OP', 'OBJ_ATT', 'OP', 'STRING', 'RPARN'], 'prefix': ['LPARN', 'OBJ_ATT', ['OP', '<'], 'STRING', ['BOOL_OP', 'OR'], 'FLOAT', ['OP', '>='], 'USR_ATT']}))
    out.reverse()
    return out
