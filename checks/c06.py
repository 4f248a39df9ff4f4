"""C06: lexing is total, faithful and longest-match."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.errors']
ASSUMPTIONS = ['characters: U+0000..U+00FF and 11 representative code points beyond (other digits, letters, space, symbols)']
BOUNDS = {'quick': 'every text of up to 3 characters; 3 symbolic characters inside longer templates; keywords and prefixes in every letter case',
          'thorough': 'every text of up to 4 characters; 4 symbolic characters inside longer templates; keywords and prefixes in every letter case'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 2400


def lexed(ctx, text):
    lx = ctx.imp('hgpl.lexing')
    er = ctx.imp('hgpl.errors')
    lexer = lx.Lexer(text)
    try:
        lexer.tokenize()
    except er.LexerError:
        return None, lexer
    return R.toks(lexer.toke_list()), lexer


def compare(ctx, text, n):
    got, lexer = lexed(ctx, text)
    want = R.ref_lex(text, n)
    ctx.observe('accepted', got is not None)
    if got is None or want is None:
        ctx.check((got is None) == (want is None), 'accepted exactly the lexically correct texts')
        return
    ctx.observe('tokens', got)
    ctx.check(len(got) == len(want), 'number of tokens')
    for g, w in zip(got, want):
        ctx.check(g[0] == w[0], 'token type')
        ctx.check(g[1] == w[1], 'token position')
        ctx.check(ctx.same(g[2], w[2]), 'token value')
    atts = R.toks(lexer.att_list())
    ctx.check(ctx.same(atts, [t for t in got if t[0].endswith('_ATT')]), 'attribute list')


def any_text(ctx, n, first=None):
    text = ctx.chars('t', n)
    if first is not None:
        k = ord(text[0])
        ctx.assume(ctx.And(first[0] <= k, k <= first[1]))
    compare(ctx, text, n)


def template(ctx, pre, n, post, domain='latin'):
    text = pre + ctx.chars('t', n, domain) + post
    compare(ctx, text, len(pre) + n + len(post))


def cased(ctx, word, tail=''):
    """A word in every letter case."""
    text = ''
    for i, c in enumerate(word):
        text = text + ctx.chars('c%d' % i, 1, c.lower() + c.upper()) if c.isalpha() else text + c
    compare(ctx, text + tail, len(word) + len(tail))


def cases(tier):
    out = []
    top = 3 if tier == 'quick' else 4
    out.append(('any_text', {'n': 0}))
    for n in range(1, top):
        out.append(('any_text', {'n': n}))
    for lo, hi in ((0, 33), (34, 34), (35, 47), (48, 57), (58, 64), (65, 77), (78, 96), (97, 109), (110, 122), (123, 0xb0), (0xb1, 0xc8), (0xc9, 0xdf), (0xe0, 0x20ffff)):
        out.append(('any_text', {'n': top, 'first': [lo, hi]}))
    k = 2 if tier == 'quick' else 3
    for pre, post in (('user', 'x = 1'), ('user.', ''), ('user.a', 'b'), ('12', ''), ('1', '5'), ('1.2', ''), ('-', '1'), ('"a', '"'), ('"', 'b" = "c"'),
                      ('in', ' {'), ('no', 't'), ('a', 'd'), ('tru', ' or'), ('1 ', '2'), ('<', '3'), ('user.a =', '-7'), ('env.x1', '> 2.5'), ('(', ')'), ('! ', '='), ('nul', '')):
        out.append(('template', {'pre': pre, 'n': k, 'post': post}))
    for w in ('in', 'subset', 'and', 'or', 'true', 'false', 'undef', 'not', 'null'):
        out.append(('cased', {'word': w}))
    for p in R.PREFIXES:
        out.append(('cased', {'word': p + '.ab', 'tail': ' '}))
    for w in ('usr.a', 'users.a', 'use.a', 'ins', 'nots', 'objectx.y', 'environment.a', 'trueish', 'connect_.a'):
        out.append(('cased', {'word': w}))
    out.sort(key=lambda c: -c[1].get('n', 0))
    return out
