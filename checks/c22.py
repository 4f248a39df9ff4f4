"""C22: connection attributes describe the actual connection, one identifier each."""
import base64

from checks import aaref as A
from checks import certref as R
from checks.textref import edged, spelled

REQUIRES = ['hgaa.services.aauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database', 'hgaa.schema.aauth', 'ladon.exceptions.service']
PRELOAD = ['hgaa.services.aauth']
ASSUMPTIONS = ['the server reports client addresses as dotted IPv4 or as IPv6 text (any spelling of RFC 4291, with or without a zone)',
               'time.gmtime is the proleptic Gregorian calendar in GMT; weekday and month names are English']
BOUNDS = {'quick': 'any IPv4 address; IPv6: any value of up to two groups at each position in full form, twelve compressed forms with any last group, IPv4-mapped forms and zones; host, ident and user: any texts of up to 100 bytes or absent; any presented key (2000 bytes), algorithm text and size; any second of 14 days incl. leap days and ends of years; the clock may go on by 1 s at each of 3 readings; any serial; any lifetime of up to 8 digits; any configured identity texts (60 bytes)',
          'thorough': 'same, 40 days, more IPv6 forms'}
BUDGET_QUICK = 200
BUDGET_THOROUGH = 900
USERS = [(1, 'ab', 'pw1')]
NOW = 1600000000
DAY = 86400
# days since 1970: around new year, leap days, every month and weekday
DAYS = [11322, 11323, 11381, 11382, 12417, 14000, 16500, 18262, 18321, 18322, 18627, 18628, 24855, 45000]
MORE = [18000 + 29 * i for i in range(13)] + [19000 + 31 * i for i in range(13)]


class Seen(object):
    """the connection attributes of a certificate"""

    def __init__(self, ctx, aa, data):
        self.ctx = ctx
        self.T = aa.ac.AttributeType
        self.cert = aa.certificate(data)
        self.atts = {}
        ids = []
        for a in self.cert.att_set:
            self.atts[a.att_id] = a
            ids.append(a.att_id)
        ctx.check(len(set(ids)) == len(ids), 'no identifier twice')

    def get(self, name):
        return self.atts.get('/attribute/connection/' + name)

    def text(self, name, value, what=None):
        a = self.get(name)
        self.ctx.check(a is not None, (what or name) + ' there')
        if a is not None:
            self.ctx.check(a.att_type == self.T.STRING, name + ' type')
            self.ctx.check(R.same_value(self.ctx, 'text?', value, a.att_value), what or name)
            self.ctx.check(a.att_name == name, name + ' name')

    def num(self, name, value, typ='INT'):
        a = self.get(name)
        self.ctx.check(a is not None, name + ' there')
        if a is not None:
            self.ctx.check(a.att_type == getattr(self.T, typ), name + ' type')
            self.ctx.check(a.att_value is not None and self.ctx.same(a.att_value, str(value)), name)
            self.ctx.check(a.att_name == name, name + ' name')

    def absent(self, name):
        self.ctx.check(self.get(name) is None, name + ' absent')


def common(ctx, s, aa, t0, t1, key=0, pub=b'the public key', cipher='RSA', size=2048):
    """everything but the address"""
    v = aa.conf
    s.num('auth_method', 0)
    s.text('pub_key', base64.b64encode(pub).decode('utf-8'))
    s.num('pub_key_size', size)
    s.text('pub_key_algo', cipher)
    s.text('aauth_uid', v['A_URI'])
    s.text('aauth_name', v['AAUTH_ID'])
    s.text('aauth_url', 'http://example.org:8888/AttributeAuthority/jsonwsp/')
    s.text('aauth_pub_key', base64.b64encode(aa.world.pem(key)).decode('utf-8'))
    s.num('aauth_pub_key_size', aa.world.key(key).size_in_bits())
    s.text('aauth_pub_key_algo', 'RSA')
    s.num('aauth_version', 1)
    s.num('ac_version', 1)
    s.num('session_id', s.cert.info.serial)
    s.num('session_length', int(v['AC_EXPIRE_LENGTH']))
    calendar(ctx, s, aa, t0, t1)


def calendar(ctx, s, aa, t0, t1):
    a = s.get('con_time')
    ctx.check(a is not None and a.att_value is not None, 'con_time there')
    t = int(a.att_value)
    ctx.check(ctx.And(t >= t0, t <= t1), 'con_time is the time of the request')
    s.num('con_time', t)
    g = aa.world.gmtime(t)
    for n, f in (('month', 'mon'), ('day', 'mday'), ('weekday', 'wday'), ('year', 'year'), ('yearday', 'yday'), ('hour', 'hour'), ('min', 'min'),
                 ('sec', 'sec')):
        s.num('con_time_' + n, g[f])
    days, months = aa.world.names()
    for n, names, i in (('weekdayname', days, g['wday']), ('monthname', months, g['mon'] - 1)):
        b = s.get('con_time_' + n)
        ctx.check(b is not None and b.att_value in list(names), n + ' there')
        if b is not None:
            ctx.check(list(names).index(b.att_value) == i, n)
            ctx.check(b.att_name == 'con_time_' + n and b.att_type == s.T.STRING, n + ' name and type')
    s.text('con_time_zone', 'GMT')
    s.num('con_time_dst', False, 'BOOL')


def version(s, v4, v6):
    s.num('ip_v4', v4, 'BOOL')
    s.num('ip_v6', v6, 'BOOL')


def go(ctx, aa, **k):
    st, r, data = aa.request(aa.credentials('ab', 'pw1'), **k)
    ctx.check(st == 'ok', 'a certificate is issued')
    return Seen(ctx, aa, data)


def v4(ctx, free):
    """any IPv4 address"""
    octets = [ctx.int('o%d' % i, 0, 255) if i in free else [10, 200, 7, 99][i] for i in range(4)]
    addr = '.'.join([str(o) for o in octets])
    aa = A.AA(ctx, USERS)
    s = go(ctx, aa, addr=addr)
    s.text('remote_addr', addr)
    version(s, True, False)
    for i in range(4):
        s.num('remote_addr_v4_oct%d' % i, octets[i])
    for i in range(8):
        s.absent('remote_addr_v6_hex%d' % i)
    s.absent('remote_addr_v4_oct4')
    common(ctx, s, aa, NOW, NOW)


HEX = '0123456789abcdefABCDEF'


def v6(ctx, form, free):
    """form: groups, a gap written as None, may end in a dotted IPv4 address; free: positions (in the form) with any value"""
    groups = []
    text = []
    for i, g in enumerate(form):
        if i in free:
            t = ctx.str('g%d' % i, 4, HEX, 1)
            groups.append(int(t, 16))
            text.append(t)
        elif g is None:
            groups.append(None)
            text.append(None)
        elif '.' in g:
            a, b, c, d = [int(x) for x in g.split('.')]
            groups += [a * 256 + b, c * 256 + d]
            text.append(g)
        else:
            groups.append(int(g, 16))
            text.append(g)
    if None in groups:
        i = groups.index(None)
        groups = groups[:i] + [0] * (9 - len(groups)) + groups[i + 1:]
        j = text.index(None)
        addr = ':'.join(text[:j]) + '::' + ':'.join(text[j + 1:])
    else:
        addr = ':'.join(text)
    addr = addr + ctx.pick('zone', ['', '%eth0', '%1', '%en0.1'])
    aa = A.AA(ctx, USERS)
    s = go(ctx, aa, addr=addr)
    s.text('remote_addr', addr)
    version(s, False, True)
    for i in range(8):
        s.num('remote_addr_v6_hex%d' % i, groups[i])
    for i in range(4):
        s.absent('remote_addr_v4_oct%d' % i)
    s.absent('remote_addr_v6_hex8')


def exports(ctx):
    """host, ident and user as the server reports them"""
    ex = {}
    names = ['REMOTE_HOST', 'REMOTE_IDENT', 'REMOTE_USER']
    for n in names:
        if ctx.pick(n + '?', [True, False]):
            ex[n] = edged(ctx, n, 100)
    ex['HTTP_USER_AGENT'] = 'x'
    aa = A.AA(ctx, USERS)
    s = go(ctx, aa, exports=ex)
    for n in names:
        if n in ex:
            s.text(n.lower(), ex[n])
        else:
            s.absent(n.lower())
    s.text('remote_addr', '10.1.2.3')
    common(ctx, s, aa, NOW, NOW)


def key(ctx, which):
    aa = A.AA(ctx, USERS)
    pub = ctx.data('pub', 2000) if 'pub' in which else b'the key'
    cipher = edged(ctx, 'cipher', 60) if 'cipher' in which else 'RSA'
    size = ctx.int('size', 1, 65536) if 'size' in which else 1024
    s = go(ctx, aa, key=aa.public_key(pub, cipher, size))
    common(ctx, s, aa, NOW, NOW, 0, pub, cipher, size)


def authority(ctx, what):
    conf = {}
    for f in what:
        conf[f] = spelled(ctx, f, 60)
    i = ctx.pick('key', [0, 1])
    aa = A.AA(ctx, USERS, conf=conf, key=i)
    s = go(ctx, aa)
    common(ctx, s, aa, NOW, NOW, i)


def when(ctx, day, ticks):
    """any quarter second of a day"""
    q = ctx.int('now', 4 * DAY * day, 4 * DAY * (day + 1) - 1)
    aa = A.AA(ctx, USERS, now=None)
    aa.world.set_now(q, ticks)
    t0 = aa.world.now()
    s = go(ctx, aa)
    calendar(ctx, s, aa, t0, aa.world.now())


def session(ctx, digits):
    """any serial and lifetime"""
    n = ctx.str('length', digits, '0123456789', digits)
    ctx.assume(n[0] != '0')
    aa = A.AA(ctx, USERS, conf={'AC_EXPIRE_LENGTH': n}, serial=None)
    s = go(ctx, aa)
    s.num('session_id', s.cert.info.serial)
    s.num('session_length', int(n))
    ctx.check(s.cert.rev_rules.valid_before - s.cert.rev_rules.valid_after == int(n), 'lifetime')


def cases(tier):
    out = [('v4', {'free': [0, 1, 2, 3]}), ('exports', {})]
    full = ['2001', 'db8', '0', '1', '22', '333', '4444', 'ffff']
    for i in range(0, 8, 1 if tier == 'thorough' else 3):
        out.append(('v6', {'form': full, 'free': [i]}))
    forms = [[None], [None, '1'], ['1', None], ['fe80', None, '1'], ['1', '2', '3', None, '7', '8'], ['1', '2', '3', '4', '5', '6', '7', None],
             [None, '2', '3', '4', '5', '6', '7', '8'], ['1', None, '8'], [None, 'ffff', '1.2.3.4'], [None, '200.30.4.5'], ['64', 'ff9b', None, '10.0.0.255'],
             ['0', '0', '0', '0', '0', '0', '1.2.3.4'], ['1', None, '3', '4', '5', '6', '7', '8']]
    for f in forms:
        last = len(f) - 1
        out.append(('v6', {'form': f, 'free': [last] if f[last] is not None and '.' not in f[last] else []}))
    out += [('key', {'which': w}) for w in (['pub'], ['cipher'], ['size'])]
    out += [('authority', {'what': w}) for w in (['A_URI'], ['AAUTH_ID'])]
    out += [('when', {'day': d, 'ticks': 3 if d % 5 == 0 else 0}) for d in DAYS + (MORE if tier == 'thorough' else [])]
    out += [('session', {'digits': d}) for d in (1, 5, 8)]
    return out
