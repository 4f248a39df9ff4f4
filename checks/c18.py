"""C18: a certificate is valid strictly between its validity bounds."""
from checks import certref as R

REQUIRES = ['hgaa.attcert']
ASSUMPTIONS = ['the clock is symbolic, in quarter seconds, and may advance between two readings',
               'when the current time is used and lies less than a second after the valid-after time, either answer is accepted']
BOUNDS = {'quick': 'any bounds and instants (unbounded integers), any current time between 2001 and 2033 in quarter seconds, up to 3 clock readings that advance by up to 2 s each',
          'thorough': 'same, up to 5 readings'}
BUDGET_QUICK = 120
BUDGET_THOROUGH = 600


def valid(ctx, how):
    """how: built, or exported and imported"""
    ac = ctx.imp('hgaa.attcert')
    lo, hi = (None, None) if how == 'built' else (0, 2 ** 32 - 1)
    a, b = ctx.int('after', lo, hi), ctx.int('before', lo, hi)
    p = R.parts(ctx, 'c', {}, 0, None, False, False)
    c = R.Cert(p).build(ctx)
    c.rev_rules = ac.ACRevocationRules(a, b)
    if how != 'built':
        c = ac.AttributeCertificate.import_ac(c.export_ac())
    w = ctx.world()
    w.set_now(ctx.int('clock', 4 * 10 ** 9, 8 * 10 ** 9))
    t = ctx.int('instant')
    r = c.verify_time(t)
    ctx.check(ctx.same(bool(r), bool(ctx.And(a < t, t < b))), 'valid exactly between the bounds at the instant given')
    q = w.now_quarters()
    r = c.verify_time()
    ctx.observe('valid', bool(r))
    whole = ctx.Or(q >= 4 * a + 4, q <= 4 * a)
    if bool(whole):
        ctx.check(ctx.same(bool(r), bool(ctx.And(4 * a < q, q < 4 * b))), 'valid exactly between the bounds at the current time')
    r = c.verify_time(t)
    ctx.check(ctx.same(bool(r), bool(ctx.And(a < t, t < b))), 'the instant given counts again')


def defaults(ctx, given, ticks):
    """Revocation rules without bounds, at any time, with a clock that may advance at every reading"""
    ac, w = ctx.imp('hgaa.attcert'), ctx.world()
    w.set_now(ctx.int('clock', 4 * 10 ** 9, 8 * 10 ** 9), ticks, 8)
    first = w.now()
    url = ctx.text('url', 65535) if ctx.pick('url?', [True, False]) else None
    k = {}
    if given == 'after':
        k['valid_after'] = ctx.int('after')
    elif given == 'before':
        k['valid_before'] = ctx.int('before')
    elif given == 'both':
        k['valid_after'], k['valid_before'] = ctx.int('after'), ctx.int('before')
    r = ac.ACRevocationRules(url=url, **k)
    last = w.now()
    if 'valid_after' in k:
        ctx.check(ctx.same(r.valid_after, k['valid_after']), 'keeps the valid-after time')
    if 'valid_before' in k:
        ctx.check(ctx.same(r.valid_before, k['valid_before']), 'keeps the valid-before time')
    if given == 'before':
        ctx.check(ctx.And(first <= r.valid_after, r.valid_after <= last), 'valid from the current second')
    if given == 'after':
        ctx.check(ctx.And(first <= r.valid_before - 86400, r.valid_before - 86400 <= last), 'valid until a day after the current second')
    if not k:
        ctx.observe('length', r.valid_before - r.valid_after)
        ctx.check(r.valid_before - r.valid_after == 86400, 'valid for exactly one day')
        ctx.check(ctx.And(first <= r.valid_after, r.valid_after <= last), 'valid from the current second')
        ctx.check(isinstance(r.valid_after, int) and isinstance(r.valid_before, int), 'whole seconds')


def issued(ctx, ticks):
    ac, w = ctx.imp('hgaa.attcert'), ctx.world()
    w.set_now(ctx.int('clock', 4 * 10 ** 9, 8 * 10 ** 9), ticks, 8)
    first = w.now()
    i = ac.ACInformation()
    last = w.now()
    ctx.check(ctx.And(first <= i.issued, i.issued <= last), 'issued at the current second')
    ctx.check(isinstance(i.issued, int), 'whole seconds')
    ctx.check(ctx.And(i.serial >= 0, i.serial < 2 ** 160), 'serial of at most 160 bits')
    t, s = ctx.int('issued'), ctx.int('serial')
    j = ac.ACInformation(1, s, t)
    ctx.check(ctx.same(j.issued, t), 'keeps the issue time given')
    ctx.check(ctx.same(j.serial, s), 'keeps the serial given')


def cases(tier):
    n = 3 if tier == 'quick' else 5
    out = [('valid', {'how': h}) for h in ('built', 'imported')]
    for t in range(n + 1):
        out += [('defaults', {'given': g, 'ticks': t}) for g in ('none', 'after', 'before', 'both')]
        out.append(('issued', {'ticks': t}))
    return out
