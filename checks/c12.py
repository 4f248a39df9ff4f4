"""C12: warnings stop an evaluation exactly at the requested level."""
from checks import hgplref as R
from checks import c05

REQUIRES = ['hgpl.lexing', 'hgpl.parsing', 'hgpl.errors', 'hgpl.ast', 'hgpl.symbols', 'hgpl.interpreting']
ASSUMPTIONS = ['policies are given as token lists (the lexer is C06)']
BOUNDS = {'quick': '14 policy forms with symbolic constants, every attribute missing, unset, mistyped or present with any value, every level or none; the same interpreter used once or twice',
          'thorough': 'same, three evaluations'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 1200


def levels(ctx, form, states, times):
    er = ctx.imp('hgpl.errors')
    toks, atts = c05.plan(ctx, form)
    ip = ctx.imp('hgpl.interpreting')
    it = ip.Interpreter(c05.tree(ctx, toks), 'the policy')
    for i in range(times):
        build, items = c05.fill(ctx, 't%d' % i, atts, states)
        free = ip.Interpreter(c05.tree(ctx, toks), 'the policy')
        st0, r0 = R.run_interp(ctx, free, build())
        warned = len(free.get_warnings()) > 0
        how = ctx.pick('how%d' % i, ['default', 'none', 'level'])
        level = None
        if how == 'default':
            try:
                r = it.evaluate(build())
                st = 'ok'
            except er.InterpreterWarning as w:
                st, r = 'warning', w
            except er.InterpreterError as e:
                st, r = 'error', e
        else:
            if how == 'level':
                level = ctx.enum('level%d' % i, er.ErrorType)
            st, r = R.run_interp(ctx, it, build(), level)
        ctx.observe('outcome%d' % i, [st, warned])
        if st0 == 'error':
            ctx.check(st == 'error', 'an error stays an error')
        else:
            stop = False if level is None else ctx.And(warned, ctx.Or(*[level == getattr(er.ErrorType, x) for x in ('NONE', 'INFO', 'WARN')]))
            ctx.check((st == 'warning') == stop, 'raises a warning exactly at or below the level WARN')
            if st == 'ok':
                ctx.check(R.code(ctx, r) == R.code(ctx, r0), 'otherwise returns the result')
            else:
                ctx.check(r.type == er.ErrorType.WARN, 'what is raised is a warning')
        ws = it.get_warnings()
        ctx.check(len(ws) == len(free.get_warnings()), 'the warnings of this evaluation')
        for w in ws:
            ctx.check(isinstance(w, er.InterpreterWarning) and w.type == er.ErrorType.WARN, 'a warning')
            ctx.check(isinstance(w.rule, str) and len(w.rule) > 0, 'names its rule')
        whole = [1 for x in items if x[2] == 'present']
        if len(whole) == len(items) and form not in ('nulls',):
            ctx.check(not warned, 'a well-typed evaluation has no warnings')
        elif len(whole) < len(items):
            ctx.check(warned, 'a missing, unset or mistyped attribute leaves a warning')


def cases(tier):
    every = ['present', 'missing', 'unset', 'mistyped']
    out = []
    for f in c05.FORMS:
        small = f not in ('two', 'orin', 'attatt', 'bad')
        if tier == 'quick':
            out.append(('levels', {'form': f, 'states': every, 'times': 1}))
            if small:
                out.append(('levels', {'form': f, 'states': ['present', 'missing'], 'times': 2}))
        else:
            out.append(('levels', {'form': f, 'states': every, 'times': 2 if small else 1}))
            out.append(('levels', {'form': f, 'states': ['present', 'missing'], 'times': 3 if small else 2}))
    return out
