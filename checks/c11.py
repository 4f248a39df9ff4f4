"""C11: attribute names resolve case-insensitively and only within their own namespace."""
from checks import hgplref as R

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast', 'hgpl.symbols', 'hgpl.interpreting']
ASSUMPTIONS = ['attribute names: letters, digits and _ (as the lexer produces them)', 'the types given to a table builder are keyed by the qualified name in lower case']
BOUNDS = {'quick': 'every history of 3 operations (define, set value, switch type, refused second definition) over symbolic one-letter names, 3 namespaces and any letter case, followed by every lookup; builders with up to 2 attributes per namespace',
          'thorough': 'histories of 4 operations, names of 1 or 2 letters, all 5 namespaces'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 2400
SPACES = ['USR_ATT', 'OBJ_ATT', 'ENV_ATT', 'ADM_ATT', 'CON_ATT']
PREFIX = {'USR_ATT': 'user.', 'OBJ_ATT': 'object.', 'ENV_ATT': 'env.', 'ADM_ATT': 'admin.', 'CON_ATT': 'connect.'}


class Ref(object):
    """List of [namespace, name, type, value]."""

    def __init__(self):
        self.rows = []

    def find(self, ns, name):
        for r in self.rows:
            if r[0] == ns and r[1].lower() == name.lower():
                return r
        return None


def a_value(ctx, tag, kinds='ibn'):
    k = ctx.pick(tag + '.k', list(kinds))
    if k == 'i':
        v = ctx.int(tag)
        return v, v
    if k == 'n':
        return None, None
    b = ctx.bool(tag)
    return b, ('decision', b)


def value_same(ctx, got, want):
    AR = ctx.imp('hgpl.ast').ASTResult
    if isinstance(want, tuple):
        return isinstance(got, AR) and (got.value == ctx.If(want[1], 1, 2))
    if want is None:
        return got is None
    return ctx.same(got, want)


def qualified(ctx, tag, ns, name):
    """the qualified name with the prefix in any letter case"""
    p = PREFIX[ns]
    return ctx.chars(tag + '.px', 1, p[0] + p[0].upper()) + p[1:] + name


def history(ctx, ops, spaces, letters, maxlen, kinds='i'):
    sy, lx = ctx.imp('hgpl.symbols'), ctx.imp('hgpl.lexing')
    table, ref = sy.SymbolTable(), Ref()
    TT, ST = lx.TokenType, sy.SymbolType
    for i, op in enumerate(ops):
        ns = ctx.pick('ns%d' % i, spaces)
        name = ctx.str('name%d' % i, maxlen, letters, 1)
        row = ref.find(ns, name)
        if op == 'define':
            ty = ctx.enum('ty%d' % i, ST)
            given, want = a_value(ctx, 'v%d' % i, kinds)
            sym = sy.Symbol(name, getattr(TT, ns), ty, given)
            done = table.define(sym)
            ctx.check((row is None) == bool(done), 'a second definition is refused')
            if row is None:
                ref.rows.append([ns, name, ty, want, sym])
        elif op == 'set':
            given, want = a_value(ctx, 'v%d' % i, kinds)
            try:
                table.set_value(qualified(ctx, 'q%d' % i, ns, name), given)
                ok = True
            except Exception:
                ok = False
            ctx.check(ok == (row is not None), 'only a defined attribute can be set')
            if row is not None:
                row[3] = want
        else:
            ty = ctx.enum('ty%d' % i, ST)
            try:
                old = table.switch_type(qualified(ctx, 'q%d' % i, ns, name), ty)
                ok = True
            except Exception:
                ok = False
            ctx.check(ok == (row is not None), 'only a defined attribute can change its type')
            if row is not None:
                ctx.check(old == row[2], 'the former type is returned')
                row[2] = ty
    ctx.check(len(table.names()) == len(ref.rows), 'exactly the defined names')
    ctx.check(len(table.symbols()) == len(ref.rows), 'exactly the defined symbols')
    ns = ctx.pick('ns', spaces)
    name = ctx.str('name', maxlen, letters, 1)
    row = ref.find(ns, name)
    look(ctx, table, qualified(ctx, 'q', ns, name), ns, row)
    if row is not None:
        # by symbol
        probe = sy.Symbol(name, getattr(TT, ns))
        ctx.check(table.lookup(probe) is row[4], 'lookup by symbol')
        ctx.check(bool(table.exists(probe)), 'exists by symbol')


def look(ctx, table, q, ns, row):
    s = table.lookup(q)
    ctx.observe('found', s is not None)
    ctx.check((s is not None) == (row is not None), 'found exactly if defined')
    ctx.check(bool(table.exists(q)) == (row is not None), 'exists')
    if row is None:
        ctx.check(table.lookup_type(q) is None, 'no type')
        ctx.check(table.lookup_att_name(q) is None, 'no name')
        ctx.check(table.lookup_att_type(q) is None, 'no namespace')
        return
    if row[4] is not None:
        ctx.check(s is row[4], 'the symbol first defined')
    ctx.check(s.type == row[2], 'type last set')
    ctx.check(value_same(ctx, s.value, row[3]), 'value last set')
    ctx.check(table.lookup_type(q) == row[2], 'lookup_type')
    ctx.check(value_same(ctx, table.lookup_value(q), row[3]), 'lookup_value')
    ctx.check(table.lookup_att_type(q).name == ns, 'lookup_att_type')
    ctx.check(table.lookup_att_name(q) == row[1].lower(), 'lookup_att_name')


def builder(ctx, mixed, spaces, n, typed, asked=None):
    """A table built from dictionaries holds exactly those attributes."""
    sy, lx = ctx.imp('hgpl.symbols'), ctx.imp('hgpl.lexing')
    rows, types = [], {}
    dicts = {ns: {} for ns in SPACES}
    flat = {}
    for ns in spaces:
        for i in range(n):
            tag = '%s%d' % (ns, i)
            name = ctx.chars(tag, 1, 'aAbB')
            for r in rows:
                if r[0] == ns:
                    ctx.assume(r[1].lower() != name.lower())
            given, want = a_value(ctx, 'v' + tag)
            ty = ctx.pick('ty' + tag, ['INT', 'BOOL', None] if typed else [None])
            if ty is not None:
                types[PREFIX[ns] + name.lower()] = getattr(sy.SymbolType, ty)
            dicts[ns][name] = given
            flat[PREFIX[ns] + name] = given
            rows.append([ns, name, getattr(sy.SymbolType, ty or 'UNKNOWN'), want, None])
    if mixed:
        b = sy.SymbolTableBuilder(types)
        b.load_mixed_att_val_dict(flat)
    else:
        b = sy.SymbolTableBuilder(types, dicts['USR_ATT'], dicts['ENV_ATT'], dicts['OBJ_ATT'], dicts['ADM_ATT'], dicts['CON_ATT'])
    table = b.build()
    ctx.check(len(table.names()) == len(rows), 'exactly the given attributes')
    ns = ctx.pick('ns', asked or SPACES)
    name = ctx.chars('name', 1, 'aAbB')
    row = None
    for r in rows:
        if r[0] == ns and r[1].lower() == name.lower():
            row = r
            break
    look(ctx, table, PREFIX[ns] + name, ns, row)
    b.reset_values()
    ctx.check(len(b.build().names()) == 0, 'empty after reset')
    ctx.check(len(table.names()) == len(rows), 'reset leaves the table alone')
    if not mixed:
        ctx.check(sum(len(d) for d in dicts.values()) == len(rows), 'reset leaves the given attributes alone')
    b.load_mixed_att_val_dict(flat)
    again = b.build()
    ctx.check(len(again.names()) == len(rows), 'a reset builder can be used again')
    look(ctx, again, PREFIX[ns] + name, ns, row)


def printed(ctx, spaces):
    """str() of a table gives a line per attribute with its name, type, value and namespace"""
    sy, lx = ctx.imp('hgpl.symbols'), ctx.imp('hgpl.lexing')
    table = sy.SymbolTable()
    rows = []
    for i, ns in enumerate(spaces):
        name = ctx.chars('n%d' % i, 1, 'aAbB')
        for r in rows:
            if r[0] == ns:
                ctx.assume(r[1].lower() != name.lower())
        v = ctx.int('v%d' % i) if ctx.pick('set%d' % i, [True, False]) else None
        ty = ctx.pick('t%d' % i, ['INT', 'FLOAT', 'UNKNOWN'])
        R.define(table, sy, lx.TokenType, name, ty, v, ns)
        rows.append((ns, name, ty, v))
    lines = table.__str__().split('\n')
    ctx.check(len(lines) == len(rows) + 2, 'a heading and a line per attribute')
    for k, (ns, name, ty, v) in enumerate(rows):
        cells = lines[k + 1].split('\t\t')
        ctx.check(len(cells) == 4, 'four columns')
        ctx.check(ctx.And(cells[0] == PREFIX[ns] + name.lower(), cells[1] == ty, cells[3] == ns), 'name, type and namespace')
        ctx.check(cells[2] == ('None' if v is None else '%d' % v), 'value')


def unknown_namespace(ctx):
    """Mixed dictionaries accept only the five namespaces."""
    sy = ctx.imp('hgpl.symbols')
    p = ctx.chars('p', 3, 'abcdenvx')
    b = sy.SymbolTableBuilder({})
    try:
        b.load_mixed_att_val_dict({p + '.a': 1})
        ok = True
    except Exception:
        ok = False
    ctx.observe('ok', ok)
    ctx.check(ok == (p == 'env'), 'only known namespaces are accepted')


def resolves(ctx, spaces):
    """Evaluation reads the attribute of the policy's own namespace."""
    lx, sy = ctx.imp('hgpl.lexing'), ctx.imp('hgpl.symbols')
    pol = R.Pol(ctx)
    ns = ctx.pick('ns', spaces)
    pname = ctx.chars('p', 1, 'aAbB')
    pol.add(ns, pname)
    pol.add('OP', '=')
    pol.add('INT', 7)
    table = sy.SymbolTable()
    want = None
    for other in spaces:
        name = ctx.chars('n' + other, 1, 'aAbB')
        v = ctx.int('v' + other)
        R.define(table, sy, lx.TokenType, name, 'INT', v, other)
        if other == ns:
            want = ctx.If(name.lower() == pname.lower(), ctx.If(v == 7, 1, 2), 3)
    st, r, it = R.run_policy(ctx, pol.tree(), table)
    ctx.check(st == 'ok', 'evaluates')
    ctx.observe('r', R.code(ctx, r))
    ctx.check(R.code(ctx, r) == want, 'the attribute of that namespace decides')


def cases(tier):
    out = [('unknown_namespace', {}), ('printed', {'spaces': []}), ('printed', {'spaces': ['USR_ATT']}), ('printed', {'spaces': ['ENV_ATT', 'ENV_ATT']}), ('printed', {'spaces': ['ADM_ATT', 'CON_ATT']}), ('resolves', {'spaces': SPACES[:3]}), ('resolves', {'spaces': SPACES[2:]})]
    kinds = ['define', 'set', 'switch']
    k = 3 if tier == 'quick' else 4
    seqs = [['define']]
    for _ in range(k - 1):
        seqs = [s + [x] for s in seqs for x in kinds]
    for s in seqs:
        out.append(('history', {'ops': s, 'spaces': ['USR_ATT', 'CON_ATT'], 'letters': 'aAb', 'maxlen': 1}))
    for s in (['define', 'define'], ['define', 'set'], ['define', 'switch'], ['set'], ['switch']):
        out.append(('history', {'ops': s, 'spaces': SPACES, 'letters': 'aAbB_', 'maxlen': 1 if tier == 'quick' else 2}))
        out.append(('history', {'ops': s, 'spaces': ['OBJ_ATT', 'ADM_ATT'], 'letters': 'xX1', 'maxlen': 1, 'kinds': 'ibn'}))
    for mixed in (False, True):
        for ns in SPACES:
            out.append(('builder', {'mixed': mixed, 'spaces': [ns], 'n': 2, 'typed': True, 'asked': [ns] if tier == 'quick' else None}))
        for i in range(5):
            out.append(('builder', {'mixed': mixed, 'spaces': [SPACES[i], SPACES[(i + 1) % 5]], 'n': 1, 'typed': tier != 'quick'}))
        out.append(('builder', {'mixed': mixed, 'spaces': [], 'n': 0, 'typed': False}))
    out.sort(key=lambda c: -len(c[1].get('ops', [])))
    return out
