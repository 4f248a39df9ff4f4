"""Concrete contents for opaque texts and byte strings of given sizes; rank makes them distinct."""
ONE = 'abcdefghijklmnopqrstuvwxyz'
TWO = '\u00e9\u00e0\u00e1\u00e2\u00e3\u00e4\u00e5\u00e6\u00e7\u00e8\u00ea\u00eb\u00ec\u00ed\u00ee\u00ef\u00f0\u00f1\u00f2\u00f3'
THREE = '\u4e2d\u4e2e\u4e30\u4e31\u4e32\u4e33\u4e34\u4e35\u4e36\u4e37\u4e38\u4e39\u4e3a\u4e3b\u4e3c\u4e3d\u4e3e\u4e3f\u4e40\u4e41'
FOUR = ''.join(chr(0x1f600 + i) for i in range(20))


def text(n, nb, rank, variant=0):
    """variant 1: capital letters"""
    x = nb - n
    q, r = divmod(x, 3)
    # short classes last, so that the rank (written from the end) varies ASCII letters first
    classes = [FOUR] * q + ([THREE] if r == 2 else []) + ([TWO] if r == 1 else [])
    classes += [ONE] * (n - len(classes))
    out = []
    for c in reversed(classes):
        c = c.upper() if variant else c
        rank, d = divmod(rank, len(c))
        out.append(c[d])
    s = ''.join(reversed(out))
    assert len(s) == n and len(s.encode('utf-8')) == nb, (n, nb, s)
    return s


def data(nb, rank, variant=0):
    base, size = ((0xA0, 90), (0x00, 33))[variant]
    out = []
    for _ in range(nb):
        rank, d = divmod(rank, size)
        out.append(base + d)
        if rank == 0 and len(out) >= 8:
            break
    out += [base] * (nb - len(out))
    return bytes(reversed(out))
