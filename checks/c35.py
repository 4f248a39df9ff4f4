"""C35: from its text to the decision, a policy means what its words say."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast', 'hgpl.symbols', 'hgpl.semantics', 'hgpl.interpreting']
ASSUMPTIONS = ['attributes are declared with types that fit the comparisons; a boolean attribute has one of the three truth values']
BOUNDS = {'quick': 'policies of up to 3 conditions joined by AND and OR in any way without or with one pair of parentheses, each with or without NOT where the grammar has it; conditions: boolean attribute, constant, number comparison with any operator and any literal of up to 2 digits (sign, one decimal), equality with any string of up to 2 printable characters, IN and SUBSET with set constants and set attributes, undefined attribute; any integer, fractional (quarters), string and truth values of the attributes; evaluated from the parsed tree, from the encoded and decoded tree, and from a parser; symbol table from the builder with the types the type checker inferred',
          'thorough': 'same, 4 conditions and every choice of kinds'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 900
NUM = ['<', '<=', '>', '>=', '=', '!=']
PRINT = ''.join(chr(c) for c in range(32, 127) if chr(c) != '"')


class Build(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.atts = {}          # full name -> value
        self.types = {}         # types to declare (boolean attributes)

    def att(self, ns, name, value, stype=None):
        full = ns + '.' + name
        self.atts[full] = value
        if stype:
            self.types[full] = stype
        return full

    def leaf(self, i, kind):
        """-> text, truth value code, whether NOT may precede it directly"""
        ctx, t = self.ctx, 'l%d' % i
        yes = lambda c: ctx.If(c, 1, 2)
        if kind == 'bool':
            v = ctx.enum(t, ctx.imp('hgpl.ast').ASTResult)
            return self.att(['user', 'object', 'env', 'admin', 'connect'][i], 'b%d' % i, v, 'BOOL'), v.value, True
        if kind == 'const':
            c = ctx.pick(t, [('TRUE', 1), ('FALSE', 2), ('UNDEF', 3)])
            return c[0], c[1], True
        if kind in ('int', 'rint'):
            op = ctx.pick(t + 'op', NUM)
            d = ctx.chars(t + 'd', ctx.pick(t + 'n', [1, 2]), '0123456789')
            neg = ctx.pick(t + 'neg', [False, True])
            k = -int(d) if neg else int(d)
            v = ctx.int(t + 'v')
            a = self.att('user', 'N%d' % i, v)
            lit = ('-' if neg else '') + d
            l, r = (v, k) if kind == 'int' else (k, v)
            return (a + ' ' + op + ' ' + lit if kind == 'int' else lit + op + a), yes(self.compare(op, l, r)), False
        if kind == 'float':
            op = ctx.pick(t + 'op', NUM)
            d = ctx.chars(t + 'd', 1, '0123456789')
            f = ctx.pick(t + 'f', [('0', 0.0), ('25', 0.25), ('5', 0.5), ('75', 0.75)])
            v = ctx.float(t + 'v', -16, 16)
            return self.att('env', 'f%d' % i, v) + op + d + '.' + f[0], yes(self.compare(op, v, int(d) + f[1])), False
        if kind == 'string':
            op = ctx.pick(t + 'op', ['=', '!='])
            s, v = ctx.str(t + 's', 2, PRINT), ctx.str(t + 'v', 2, PRINT)
            return self.att('object', 's%d' % i, v) + ' ' + op + ' "' + s + '"', yes(self.compare(op, v, s)), False
        if kind == 'in':
            d = ctx.chars(t + 'd', 1, '0123456789')
            v = ctx.int(t + 'v')
            return self.att('user', 'n%d' % i, v, 'INT') + ' IN {' + d + ', 17,"x"}', yes(ctx.Or(v == int(d), v == 17)), False
        if kind == 'subset':
            v = [ctx.int(t + 'v0'), ctx.int(t + 'v1')]
            return '{3} SUBSET ' + self.att('connect', 'q%d' % i, v, 'SET'), yes(ctx.Or(v[0] == 3, v[1] == 3)), False
        if kind == 'missing':
            return 'user.nothing%d = 1' % i, 3, False
        raise AssertionError(kind)

    def compare(self, op, a, b):
        ctx = self.ctx
        if op == '=':
            return a == b
        if op == '!=':
            return ctx.Not(a == b)
        return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()


def text_of(ctx, b, kinds):
    """-> text, meaning"""
    n = len(kinds)
    leaves = [b.leaf(i, k) for i, k in enumerate(kinds)]
    ops = [ctx.pick('op%d' % i, ['AND', 'OR']) for i in range(n - 1)]
    open_, close = ctx.pick('paren', [(None, None)] + [(i, j) for i in range(n) for j in range(i + 1, n) if (i, j) != (0, n - 1)]) if n > 2 else (None, None)
    neg = ctx.pick('neg', [None] + list(range(n)))
    text, values = '', []
    for i, (t, v, direct) in enumerate(leaves):
        if i:
            text = text + ' ' + ops[i - 1] + ' '
        if open_ == i:
            text = text + ('NOT (' if neg == i else '(')
        elif neg == i:
            text = text + ('NOT ' if direct else 'NOT (')
            v = R.kleene_not(ctx, v)
        text = text + t
        if neg == i and open_ != i and not direct:
            text = text + ')'
        if close == i:
            text = text + ')'
        values.append(v)

    def fold(i, j):
        """values i..j by precedence"""
        terms, cur = [], values[i]
        for k in range(i, j):
            if ops[k] == 'AND':
                cur = R.kleene_and(ctx, cur, values[k + 1])
            else:
                terms.append(cur)
                cur = values[k + 1]
        terms.append(cur)
        r = terms[0]
        for x in terms[1:]:
            r = R.kleene_or(ctx, r, x)
        return r
    if open_ is not None:
        inner = fold(open_, close)
        if neg == open_:
            inner = R.kleene_not(ctx, inner)
        values[open_:close + 1] = [inner]
        ops[open_:close] = []
    return text, fold(0, len(values) - 1)


def decide(ctx, kinds):
    b = Build(ctx)
    text, want = text_of(ctx, b, kinds)
    lx, pa, sy, sm, ast, it = [ctx.imp('hgpl.' + m) for m in ('lexing', 'parsing', 'symbols', 'semantics', 'ast', 'interpreting')]
    tree = pa.Parser(lx.Lexer(text)).parse()
    tc = sm.TypeChecker(tree, text)
    tc.check()
    ctx.check(tc.get_result().name == 'PASS', 'the type checker accepts it')
    types = dict((n, tc.get_symbol_table().lookup_type(n)) for n in tc.get_symbol_table().names())
    for n in b.types:
        types[n.lower()] = getattr(sy.SymbolType, b.types[n])
    sb = sy.SymbolTableBuilder(types)
    sb.load_mixed_att_val_dict(b.atts)
    table = sb.build()
    how = ctx.pick('how', ['tree', 'stored', 'parser'])
    if how == 'tree':
        p = it.Interpreter(tree, text)
    elif how == 'stored':
        p = it.Interpreter(ast.ASTEncoder.decode(ast.ASTEncoder.encode(tree)), text)
    else:
        p = it.Interpreter(pa.Parser(lx.Lexer(text)))
    st, r = R.run_interp(ctx, p, table)
    ctx.check(st == 'ok', 'it is decided')
    if st == 'ok':
        c = R.code(ctx, r)
        ctx.observe('result', c)
        ctx.check(c == want, 'the decision its words prescribe')
        ctx.check(bool(r) == bool(c == 1), 'granted exactly when true')


def cases(tier):
    kinds = ['bool', 'const', 'int', 'rint', 'float', 'string', 'in', 'subset', 'missing']
    out = [('decide', {'kinds': [k]}) for k in kinds]
    out += [('decide', {'kinds': [a, b]}) for a in kinds for b in ('bool', 'missing')] + [('decide', {'kinds': ['bool', b]}) for b in kinds[1:-1]]
    out += [('decide', {'kinds': ['bool', 'bool', 'bool']}), ('decide', {'kinds': ['const', 'bool', 'missing']}), ('decide', {'kinds': ['bool', 'in', 'bool']}), ('decide', {'kinds': ['subset', 'bool', 'bool']})]
    if tier == 'thorough':
        out += [('decide', {'kinds': [a, b, c]}) for a in ('int', 'string') for b in ('bool', 'missing') for c in kinds]
        out += [('decide', {'kinds': ['bool'] * 4})]
    return out
