"""C14: every certificate section survives encoding and consumes only its own bytes."""
from checks import certref as R

REQUIRES = ['hgaa.attcert']
ASSUMPTIONS = ['opaque texts are valid Unicode, their characters are not inspected; byte strings likewise']
BOUNDS = {'quick': 'every section with every field free: integers unbounded, texts and byte strings of any length up to 70000 bytes or absent; and short texts of 1- to 4-byte characters and short byte strings in one field at a time; followed by any byte string of up to 70000 bytes',
          'thorough': 'same, with short contents in two fields at a time'}
BUDGET_QUICK = 150
BUDGET_THOROUGH = 900


def roundtrip(ctx, name, how):
    s = R.section(ctx, 's', name, how, True)
    rest = ctx.data('rest')
    try:
        enc = s.obj.encode()
        refused = False
    except Exception:
        refused = True
    ctx.observe('refused', refused)
    if refused:
        ctx.check(ctx.Not(s.fits), 'a section whose fields fit is encoded')
        return
    ctx.check(s.fits, 'a section with a field that does not fit is refused')
    ctx.observe('size', len(enc))
    R.check_section(ctx, name, s.values, s.obj, 'encoding leaves ')
    buf = bytearray(enc)
    buf += rest
    back = type(s.obj).decode(buf)
    R.check_section(ctx, name, s.values, back, 'decoded ')
    ctx.check(type(back) is type(s.obj), 'decoded as the same kind of section')
    ctx.check(ctx.same(bytes(buf), rest), 'leaves exactly the further bytes')


def two(ctx, first, second):
    """Two sections, one after the other: the first leaves the second, decoding one does not disturb the other."""
    a = R.section(ctx, 'a', first, 'opaque')
    b = R.section(ctx, 'b', second, 'const')
    buf = bytearray(b''.join((a.obj.encode(), b.obj.encode())))
    x = type(a.obj).decode(buf)
    y = type(b.obj).decode(buf)
    ctx.check(len(buf) == 0, 'everything consumed')
    R.check_section(ctx, first, a.values, x, 'first ')
    R.check_section(ctx, second, b.values, y, 'second ')


def cases(tier):
    out = []
    names = list(R.SECTIONS)
    for n in names:
        out.append(('roundtrip', {'name': n, 'how': 'opaque'}))
        fields = [f for f, k in R.SECTIONS[n][1] if k[:4] in ('text', 'byte')]
        for i, f in enumerate(fields):
            out.append(('roundtrip', {'name': n, 'how': {f: 'chars'}}))
            if tier == 'thorough':
                for g in fields[i + 1:]:
                    out.append(('roundtrip', {'name': n, 'how': {f: 'chars', g: 'chars'}}))
    for i, n in enumerate(names):
        out.append(('two', {'first': n, 'second': names[(i + 1) % len(names)]}))
        out.append(('two', {'first': n, 'second': n}))
    return out
