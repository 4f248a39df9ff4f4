"""Reference semantics of HGPL used as oracle: written from the grammar and the properties, not from the implementation."""

PREFIXES = ['user', 'object', 'env', 'admin', 'connect']
ATT_OF = {'user': 'USR_ATT', 'object': 'OBJ_ATT', 'env': 'ENV_ATT', 'admin': 'ADM_ATT', 'connect': 'CON_ATT'}
PUNCT = {'{': 'LSET', '}': 'RSET', ',': 'COMMA', '(': 'LPARN', ')': 'RPARN'}
WORDS = [('IN', 'OP'), ('SUBSET', 'OP'), ('AND', 'BOOL_OP'), ('OR', 'BOOL_OP'), ('TRUE', 'BOOL'), ('FALSE', 'BOOL'),
         ('UNDEF', 'BOOL'), ('NOT', 'NOT_OP'), ('NULL', 'NULL')]


def is_digit(c):
    return c.isdecimal()


def is_name_start(c):
    return c.isalpha()


def is_name(c):
    return c.isalpha() or c.isdigit() or c == '_'


def ref_lex(text, n):
    """Tokens of text (of length n) as (type name, position, value), or None if it is not lexically correct."""
    out = [('START', 0, None)]
    i = 0
    while True:
        while i < n and text[i].isspace():
            i += 1
        if i >= n:
            break
        c = text[i]
        start = i
        hit = None
        for p in PUNCT:
            if c == p:
                hit = p
                break
        if hit is not None:
            out.append((PUNCT[hit], i, None))
            i += 1
            continue
        if c == '=':
            out.append(('OP', i, '='))
            i += 1
            continue
        if c == '<' or c == '>' or c == '!':
            o = '<' if c == '<' else ('>' if c == '>' else '!')
            if i + 1 < n and text[i + 1] == '=':
                out.append(('OP', i, o + '='))
                i += 2
            elif o == '!':
                return None
            else:
                out.append(('OP', i, o))
                i += 1
            continue
        if c == '"':
            i += 1
            while i < n and text[i] != '"':
                k = ord(text[i])
                if k < 32 or k > 126:
                    return None
                i += 1
            if i >= n:
                return None
            out.append(('STRING', start, text[start + 1:i]))
            i += 1
            continue
        if is_digit(c) or (c == '-' and i + 1 < n and is_digit(text[i + 1])):
            i += 1
            while i < n and is_digit(text[i]):
                i += 1
            if i < n and text[i] == '.':
                i += 1
                if i >= n or not is_digit(text[i]):
                    return None
                while i < n and is_digit(text[i]):
                    i += 1
                if i < n and text[i] == '.':
                    return None
                out.append(('FLOAT', start, float(text[start:i])))
            else:
                out.append(('INT', start, int(text[start:i])))
            continue
        if is_name_start(c):
            while i < n and is_name(text[i]):
                i += 1
            word = text[start:i]
            if i < n and text[i] == '.':
                i += 1
                s2 = i
                while i < n and is_name(text[i]):
                    i += 1
                if i == s2:
                    return None
                low = word.lower()
                kind = None
                for p in PREFIXES:
                    if low == p:
                        kind = ATT_OF[p]
                        break
                if kind is None:
                    return None
                out.append((kind, start, text[s2:i]))
                continue
            kind = None
            up = word.upper()
            low = word.lower()
            for w, t in WORDS:
                if low == w.lower():
                    kind = (t, start, w)
                    break
            if kind is None:
                return None
            out.append(kind)
            continue
        return None
    out.append(('END', n, None))
    return out


def toks(tokens):
    """implementation tokens as (type name, position, value)"""
    return [(t.type.name, t.pos, t.value) for t in tokens]


# ---------------------------------------------------------------------------------------------------------------
# tokens and grammar

ATTS = ['USR_ATT', 'OBJ_ATT', 'ENV_ATT', 'ADM_ATT', 'CON_ATT']
ATOMS = ['INT', 'FLOAT', 'STRING', 'NULL']
NODE_OF = {'USR_ATT': 'UsrAttNode', 'OBJ_ATT': 'ObjAttNode', 'ENV_ATT': 'EnvAttNode', 'ADM_ATT': 'AdmAttNode',
           'CON_ATT': 'ConAttNode', 'INT': 'IntValNode', 'FLOAT': 'FloatValNode', 'STRING': 'StringValNode', 'NULL': 'NullValNode',
           'BOOL': 'BoolValNode'}
LEXED = ['OP', 'BOOL_OP', 'NOT_OP'] + ATTS + ['NULL', 'BOOL', 'INT', 'FLOAT', 'STRING', 'LSET', 'RSET', 'LPARN', 'RPARN', 'COMMA']


class Reject(Exception):
    pass


class RefParser(object):
    """Recursive descent over the grammar
         policy := term { OR term }      term := exp { AND exp }
         exp    := NOT ( '(' policy ')' | boolvar ) | '(' policy ')' | var OP var | boolvar
         boolvar := BOOL | att           var := att | atom | '{' [ atom { ',' atom } ] '}'
       Trees: ('leaf', i), ('set', i, j, [leaves]), ('op', i, l, r), ('not', i, x), ('bool', i, l, r)."""

    def __init__(self, tokens, TT):
        self.t = tokens
        self.TT = TT
        self.i = 0

    def at(self, *names):
        if self.i >= len(self.t):
            return False
        ty = self.t[self.i].type
        for n in names:
            if ty == getattr(self.TT, n):
                return True
        return False

    def need(self, name):
        if not self.at(name):
            raise Reject()
        self.i += 1
        return self.i - 1

    def parse(self):
        self.need('START')
        r = self.policy()
        self.need('END')
        return r

    def policy(self):
        r = self.term()
        while self.at('BOOL_OP') and self.t[self.i].value == 'OR':
            k = self.i
            self.i += 1
            r = ('bool', k, r, self.term())
        return r

    def term(self):
        r = self.exp()
        while self.at('BOOL_OP') and self.t[self.i].value == 'AND':
            k = self.i
            self.i += 1
            r = ('bool', k, r, self.exp())
        return r

    def paren(self):
        self.need('LPARN')
        r = self.policy()
        self.need('RPARN')
        return r

    def exp(self):
        if self.at('NOT_OP'):
            k = self.i
            self.i += 1
            return ('not', k, self.paren() if self.at('LPARN') else self.boolvar())
        if self.at('LPARN'):
            return self.paren()
        if self.at('BOOL'):
            return self.boolvar()
        l = self.var()
        if self.at('OP'):
            k = self.i
            self.i += 1
            return ('op', k, l, self.var())
        if l[0] == 'leaf' and l[2] in ATTS:
            return l
        raise Reject()

    def leaf(self, names):
        for n in names:
            if self.at(n):
                self.i += 1
                return ('leaf', self.i - 1, n)
        raise Reject()

    def boolvar(self):
        return self.leaf(['BOOL'] + ATTS)

    def var(self):
        if self.at('LSET'):
            a = self.i
            self.i += 1
            items = []
            if not self.at('RSET'):
                items.append(self.leaf(ATOMS))
                while self.at('COMMA'):
                    self.i += 1
                    items.append(self.leaf(ATOMS))
            b = self.need('RSET')
            return ('set', a, b, items)
        return self.leaf(ATTS + ATOMS)


def token_same(a, b):
    return a is b or bool(a is not None and a.pos == b.pos and a.type == b.type and a.value == b.value)


def tree_same(node, ref, tokens):
    """The implementation's tree is the reference tree, with the very tokens given."""
    kind = ref[0]
    name = node.__class__.__name__
    kids = node.children()
    if not token_same(node.token, tokens[ref[1]]):
        return False
    if kind == 'leaf':
        return name == NODE_OF[ref[2]] and len(kids) == 0
    if kind == 'set':
        return (name == 'SetNode' and token_same(node.start_token, tokens[ref[1]]) and token_same(node.end_token, tokens[ref[2]]) and
                len(kids) == len(ref[3]) and all(tree_same(k, r, tokens) for k, r in zip(kids, ref[3])))
    if kind == 'not':
        return name == 'NotNode' and len(kids) == 1 and node.left() is kids[0] and tree_same(kids[0], ref[2], tokens)
    want = 'OpNode' if kind == 'op' else 'BoolOpNode'
    return (name == want and len(kids) == 2 and node.left() is kids[0] and node.right() is kids[1] and
            tree_same(kids[0], ref[2], tokens) and tree_same(kids[1], ref[3], tokens))


OPS = ['=', '!=', '<', '>', '<=', '>=', 'IN', 'SUBSET']
FIXED = {'OP': '=', 'INT': 7, 'FLOAT': 1.5, 'STRING': 'x', 'NULL': 'NULL', 'BOOL': 'TRUE', 'NOT_OP': 'NOT'}


def symbolic_tokens(ctx, n, names, prefix=()):
    """START, the tokens prefix, n tokens of any of the types names with fitting values, END."""
    lx = ctx.imp('hgpl.lexing')
    TT = lx.TokenType
    members = [getattr(TT, x) for x in names]
    out = [lx.Token(TT.START, 0)]
    for i, x in enumerate(prefix):
        x, v = x if isinstance(x, (list, tuple)) else (x, FIXED.get(x, 'x' if x.endswith('_ATT') else None))
        out.append(lx.Token(getattr(TT, x), 2 * i, v))
    k = len(prefix)
    for i in range(n):
        ty = ctx.enum('t%d' % i, TT, members)
        val = ctx.choice('v%d' % i, ['AND', 'OR', 'TRUE', 'FALSE', 'UNDEF', 'x'] + OPS)
        ctx.assume(ctx.Implies(ty == TT.BOOL_OP, ctx.Or(val == 'AND', val == 'OR')))
        ctx.assume(ctx.Implies(ty == TT.BOOL, val == 'TRUE' if n > 3 else ctx.Or(val == 'TRUE', val == 'FALSE', val == 'UNDEF')))
        ctx.assume(ctx.Implies(ty == TT.OP, ctx.Or(*[val == o for o in OPS])))
        ctx.assume(ctx.Or(ty == TT.BOOL_OP, ty == TT.BOOL, ty == TT.OP, val == 'x'))
        out.append(lx.Token(ty, 2 * (k + i), val))
    out.append(lx.Token(TT.END, 2 * (k + n)))
    return out


# ---------------------------------------------------------------------------------------------------------------
# building policies and symbol tables


class Pol(object):
    """Builds a policy as token list; positions increase as they would in a text."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.lx = ctx.imp('hgpl.lexing')
        self.TT = self.lx.TokenType
        self.sy = ctx.imp('hgpl.symbols')
        self.toks = [self.lx.Token(self.TT.START, 0)]
        self.pos = 0

    def add(self, ttype, value=None):
        t = self.lx.Token(getattr(self.TT, ttype), self.pos, value)
        self.pos += 3
        self.toks.append(t)
        return t

    def done(self):
        return self.toks + [self.lx.Token(self.TT.END, self.pos)]

    def tree(self):
        pa = self.ctx.imp('hgpl.parsing')
        return pa.Parser(self.done(), 'the policy').parse()


def kleene_not(ctx, a):
    return ctx.If(a == 1, 2, ctx.If(a == 2, 1, 3))


def kleene_and(ctx, a, b):
    return ctx.If(ctx.Or(a == 2, b == 2), 2, ctx.If(ctx.Or(a == 3, b == 3), 3, 1))


def kleene_or(ctx, a, b):
    return ctx.If(ctx.Or(a == 1, b == 1), 1, ctx.If(ctx.Or(a == 3, b == 3), 3, 2))


def shapes(leaves, nots):
    """All trees with that many leaves and at most that many NOTs: nested tuples ('L',), ('N', x), ('A', x, y), ('O', x, y)."""
    def gen(n, k):
        out = []
        if n == 1:
            out.append(('L',))
        for i in range(1, n):
            for j in range(0, k + 1):
                for l in gen(i, j):
                    for r in gen(n - i, k - j):
                        out.append(('A', l, r))
                        out.append(('O', l, r))
        if k > 0:
            out += [('N', x) for x in gen(n, k - 1)]
        seen = []
        for x in out:
            if x not in seen:
                seen.append(x)
        return seen
    return gen(leaves, nots)


def emit(pol, shape, leaf):
    """Writes a shape with explicit parentheses; leaf(pol) writes a leaf and returns its reference value."""
    k = shape[0]
    if k == 'L':
        return leaf(pol)
    ctx = pol.ctx
    if k == 'N':
        pol.add('NOT_OP', 'NOT')
        pol.add('LPARN')
        v = emit(pol, shape[1], leaf)
        pol.add('RPARN')
        return None if v is None else kleene_not(ctx, v)
    pol.add('LPARN')
    a = emit(pol, shape[1], leaf)
    pol.add('RPARN')
    pol.add('BOOL_OP', 'AND' if k == 'A' else 'OR')
    pol.add('LPARN')
    b = emit(pol, shape[2], leaf)
    pol.add('RPARN')
    if a is None or b is None:
        return None
    return kleene_and(ctx, a, b) if k == 'A' else kleene_or(ctx, a, b)


def define(table, sy, TT, name, stype, value, ns='USR_ATT'):
    table.define(sy.Symbol(name, getattr(TT, ns), getattr(sy.SymbolType, stype), value))


def run_policy(ctx, tree, table, level=None):
    """-> ('ok', result) or ('error', exception) or ('warning', exception)"""
    it = ctx.imp('hgpl.interpreting').Interpreter(tree, 'the policy')
    return run_interp(ctx, it, table, level) + (it,)


def run_interp(ctx, it, table, level=None):
    er = ctx.imp('hgpl.errors')
    try:
        r = it.evaluate(table, level)
    except er.InterpreterWarning as w:
        return 'warning', w
    except er.InterpreterError as e:
        return 'error', e
    return 'ok', r


def code(ctx, result):
    """1 TRUE, 2 FALSE, 3 UNDEF, 0 anything else"""
    AR = ctx.imp('hgpl.ast').ASTResult
    if isinstance(result, AR):
        return result.value
    return 0


def shape_of(x):
    """params travel as JSON: lists back to tuples"""
    return tuple(shape_of(y) if isinstance(y, (list, tuple)) else y for y in x)
