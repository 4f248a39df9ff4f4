"""C13: rejections point at the offending place."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast']
ASSUMPTIONS = ['characters: U+0000..U+00FF and 11 representative code points beyond', 'the excerpt of an empty text is not specified']
BOUNDS = {'quick': 'every text of up to 2 characters, 2 symbolic characters inside 12 longer templates, every sequence of up to 4 tokens, every excerpt length; near() on opaque texts of any length up to 70000 with every position and excerpt length',
          'thorough': 'texts of up to 3 characters, 3 symbolic characters in templates, sequences of up to 5 tokens'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 2400
SMALL = ['OP', 'BOOL_OP', 'NOT_OP', 'USR_ATT', 'BOOL', 'INT', 'LSET', 'RSET', 'LPARN', 'RPARN', 'COMMA']


def excerpt(ctx, e, text, size):
    """near(n) is the clipped excerpt, for every n."""
    n = ctx.int('n', 0, size + 2)
    if size == 0:
        return
    got = e.near(n)
    lo = ctx.If(e.pos - n >= 0, e.pos - n, 0)
    hi = ctx.If(e.pos + n + 1 <= size, e.pos + n + 1, size)
    ctx.check(ctx.same(got, text[lo:hi]), 'the excerpt')


def lexed(ctx, pre, n, post):
    """A text with n symbolic characters, lexed and parsed."""
    lx, pa, er = ctx.imp('hgpl.lexing'), ctx.imp('hgpl.parsing'), ctx.imp('hgpl.errors')
    text = pre + ctx.chars('t', n) + post
    size = len(pre) + n + len(post)
    lexer = lx.Lexer(text)
    try:
        pa.Parser(lexer).parse()
    except er.HGPLError as e:
        ctx.observe('rejected', [type(e).__name__, e.pos])
        ctx.check(isinstance(e, (er.LexerError, er.ParserError)), 'kind of error')
        ctx.check(ctx.same(e.policy_text, text), 'carries the text')
        ctx.check(ctx.And(0 <= e.pos, e.pos <= size), 'position within the text')
        if isinstance(e, er.ParserError) and e.token is not None:
            ctx.check(e.pos == e.token.pos, 'position of the token it names')
        excerpt(ctx, e, text, size)
        return
    ctx.observe('rejected', None)
    ctx.check(True, 'accepted')


def parsed(ctx, n, names, first=None):
    """Token sequences with symbolic, increasing positions."""
    pa, er = ctx.imp('hgpl.parsing'), ctx.imp('hgpl.errors')
    TT = ctx.imp('hgpl.lexing').TokenType
    toks = R.symbolic_tokens(ctx, n, names)
    if first is not None:
        ctx.assume(ctx.Or(*[toks[1].type == getattr(TT, x) for x in first]))
    size = 0
    for i in range(n):
        g = ctx.int('gap%d' % i, 0, 2)
        toks[i + 1].pos = size + g
        size = toks[i + 1].pos + 1
    toks[-1].pos = size
    text = 'x' * (3 * n)
    try:
        pa.Parser(list(toks), text).parse()
    except er.ParserError as e:
        ctx.observe('pos', e.pos)
        ctx.check(e.policy_text == text, 'carries the text')
        ctx.check(ctx.And(0 <= e.pos, e.pos <= size), 'position within the text')
        hit = [t for t in toks if t is e.token]
        ctx.check(len(hit) == 1, 'names a token of the policy')
        ctx.check(e.pos == hit[0].pos, 'position of the token it names')
        return
    ctx.check(True, 'accepted')


def near(ctx, cls):
    """near() on a text of any length, any position and any excerpt length."""
    er = ctx.imp('hgpl.errors')
    text = ctx.text('text', min_n=1)
    size = len(text)
    pos = ctx.int('pos', 0)
    ctx.assume(pos <= size)
    n = ctx.int('n', 0)
    e = getattr(er, cls)('message', text, pos)
    lo = ctx.If(pos - n >= 0, pos - n, 0)
    hi = ctx.If(pos + n + 1 <= size, pos + n + 1, size)
    ctx.check(ctx.same(e.near(n), text[lo:hi]), 'the excerpt')
    lo = ctx.If(pos - 10 >= 0, pos - 10, 0)
    hi = ctx.If(pos + 11 <= size, pos + 11, size)
    ctx.check(ctx.same(e.near(), text[lo:hi]), 'ten characters by default')
    ctx.check(ctx.And(e.pos == pos, e.policy_text == text), 'kept')


def says(ctx, cls):
    """the text of the error gives the position and the excerpt"""
    er = ctx.imp('hgpl.errors')
    text = 'user.abcdefghij = object.klmnop'
    size = len(text)
    pos = ctx.int('pos', -1, size)
    e = getattr(er, cls)('message', text, pos)
    got = e.__str__()
    ctx.observe('text', got)
    if pos < 0:
        ctx.check(got == 'message', 'no position')
        return
    lo = ctx.If(pos - 10 >= 0, pos - 10, 0)
    hi = ctx.If(pos + 11 <= size, pos + 11, size)
    want = 'message @ char %d near \'%s\'' % (int(pos), text[int(lo):int(hi)])
    ctx.check(ctx.same(got, want), 'message, position and excerpt')


def cases(tier):
    out = []
    k = 2 if tier == 'quick' else 3
    for n in range(0, k + 1):
        out.append(('lexed', {'pre': '', 'n': n, 'post': ''}))
    for pre, post in (('user', 'x = 1'), ('user.a ', ''), ('user.a', ' 1'), ('1', '5'), ('1.2', ''), ('"a', ''), ('in', ' {'), ('user.a = ', ' and'), ('(user.x', ''),
                      ('{1', '} = {2}'), ('NOT ', ' user.b'), ('user.abcdefghijk = ', ' or user.lmnopqrstu')):
        out.append(('lexed', {'pre': pre, 'n': k - 1 if len(pre) + len(post) > 5 else k, 'post': post}))
    top = 4 if tier == 'quick' else 5
    for n in range(0, top + 1):
        if n < 3:
            out.append(('parsed', {'n': n, 'names': R.LEXED}))
        else:
            for g in (['LPARN'], ['NOT_OP'], ['LSET'], ['USR_ATT'], ['INT'], ['BOOL'], ['OP', 'BOOL_OP', 'RSET', 'RPARN', 'COMMA']):
                out.append(('parsed', {'n': n, 'names': SMALL, 'first': g}))
    for c in ('LexerError', 'ParserError', 'HGPLError', 'InterpreterError', 'TypeCheckerError'):
        out.append(('near', {'cls': c}))
        out.append(('says', {'cls': c}))
    out.sort(key=lambda c: -c[1].get('n', 0))
    return out
