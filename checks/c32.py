"""C32: attribute requests do not affect one another, however they are interleaved and whichever fail."""
import base64

from checks import aaref as A
from checks import certref as R
from checks.c21 import judge, expected

REQUIRES = ['hgaa.services.aauth', 'hgaa.attcert', 'hgaa.config', 'hgaa.database', 'hgaa.schema.aauth', 'ladon.exceptions.service', 'sqlalchemy.exc']
PRELOAD = ['hgaa.services.aauth']
ASSUMPTIONS = ['ideal RSA signatures and password hashes (C31)', 'random serials do not repeat', 'user names are stored in lower case']
BOUNDS = {'quick': 'two users with different values (any texts of 1 to 100 bytes) of two attributes, one of them shared; a request (all attributes, one by identifier, one by name, or a refused one) and another one of either user (also with a wrong password or for an attribute it does not have) that runs completely at any clock reading, random number, file opening, password check or database query of the first, or after it but before the certificate is read; one failure (database or file error, death) at any of these points, followed by a request of either user',
          'thorough': 'same, and a third request in between or after'}
BUDGET_QUICK = 250
BUDGET_THOROUGH = 900
NOW = 1600000000
PW = ['pw1', 'pw2']
NAMES = ['ab', 'b']
KEYS = [b'key of the first', b'key of the second']
ADDR = ['10.1.2.3', '192.168.7.9']
#        identifiers, names, user has to have it
WHAT = {'all': ([], []), 'id': (['/a/1'], []), 'name': ([], ['y']), 'mine': (['/a/3'], [])}


class Died(BaseException):
    pass


def setup(ctx):
    T = ctx.imp('hgaa.attcert').AttributeType
    v = [ctx.text('v%d' % i, max_nb=100, min_n=1) for i in range(3)]
    atts = [('/a/1', 'x', T.STRING), ('/a/2', 'y', T.INT), ('/a/3', 'z', T.STRING)]
    aa = A.AA(ctx, [(1, 'ab', 'pw1'), (2, 'b', 'pw2')], atts, [(1, '/a/1', v[0]), (1, '/a/2', '1'), (2, '/a/1', v[1]), (2, '/a/2', '2'), (2, '/a/3', v[2])])
    aa.known = dict((i, (n, t)) for i, n, t in atts)
    aa.values = [{'/a/1': v[0], '/a/2': '1'}, {'/a/1': v[1], '/a/2': '2', '/a/3': v[2]}]
    return aa


class Request(object):
    """user, what is requested, whether with the right password"""

    def __init__(self, ctx, aa, user, what, right=True):
        self.ctx, self.aa, self.user, self.what, self.right = ctx, aa, user, what, right
        self.outcome = None

    def run(self):
        ids, names = WHAT[self.what]
        m = self.aa.mod
        try:
            self.answer = self.aa.service.attribute_request(
                self.aa.credentials(NAMES[self.user], PW[self.user] if self.right else PW[1 - self.user]),
                self.aa.public_key(KEYS[self.user], 'RSA', 1024 * (1 + self.user)),
                m.AttributeList(attribute_names=list(names), attribute_ids=list(ids)), REMOTE_ADDR=ADDR[self.user])
            self.outcome = 'ok'
        except Died:
            self.outcome = 'died'
        except self.aa.faults.ClientFault:
            self.outcome = 'refused'
        except Exception as e:
            self.outcome = 'failed'
        return self

    def allowed(self):
        return self.right and not (self.what == 'mine' and self.user == 0)

    def judge(self):
        """for a request during which nothing failed"""
        ctx, aa = self.ctx, self.aa
        ctx.check(self.outcome == ('ok' if self.allowed() else 'refused'), 'answered as if alone')
        if self.outcome == 'ok':
            self.judge_certificate()

    def judge_certificate(self):
        ctx, aa, u = self.ctx, self.aa, self.user
        ctx.check(self.allowed(), 'only an allowed request gives a certificate')
        if not self.allowed():
            return
        data = self.answer.data.read()
        c = judge(ctx, aa, 'ok', self.answer, data, expected(aa, ctx, 0, NAMES[u], KEYS[u], 'RSA', 1024 * (1 + u)), NOW, NOW)
        ids, names = WHAT[self.what]
        want = [a for a in aa.values[u] if not (ids or names) or a in ids or aa.known[a][0] in names]
        got = A.user_attributes(c)
        ctx.check(sorted(g.att_id for g in got) == sorted(want), 'the attributes requested')
        for g in got:
            if g.att_id in want:
                n, t = aa.known[g.att_id]
                R.check_section(ctx, 'att', {'att_id': g.att_id, 'att_type': t, 'att_value': aa.values[u][g.att_id], 'att_name': n, 'extra_bytes': None}, g)
        con = dict((a.att_name, a.att_value) for a in c.att_set if a.att_id.startswith('/attribute/connection/'))
        ctx.check(con.get('remote_addr') == ADDR[u], 'address of the connection')
        ctx.check(con.get('pub_key') == base64.b64encode(KEYS[u]).decode('ascii'), 'key of the connection')
        ctx.check(con.get('pub_key_size') == str(1024 * (1 + u)), 'key size of the connection')
        ctx.check(con.get('session_id') == str(c.info.serial), 'session identifier of the connection')
        self.serial = c.info.serial


def files(ctx, aa, requests):
    """one file for each certificate given out"""
    done = [r for r in requests if r.outcome == 'ok']
    ctx.check(len(aa.world.written()) == len(done), 'one certificate is stored for each request answered')
    ctx.check(len(set(r.serial for r in done if hasattr(r, 'serial'))) == len(done), 'each certificate has its own serial')


OTHERS = [(1, 'all'), (1, 'name'), (0, 'all'), (0, 'all', False), (1, 'id', False), (0, 'mine')]


def other(ctx, aa, tag='', options=OTHERS):
    return Request(ctx, aa, *ctx.pick('other' + tag, options))


def meanwhile(ctx, what, more, good):
    aa = setup(ctx)
    a = Request(ctx, aa, 0, what, not (what == 'all' and more is None and ctx.pick('wrong', [False, True])))
    b = other(ctx, aa, '', OTHERS[:3] if good else OTHERS[3:])
    rs = [a, b]

    def action():
        b.run()
        if more == 'in between':
            rs.append(other(ctx, aa, '2').run())
    aa.world.arrange(action)
    a.run()
    if not aa.world.stop():
        action()
    if more == 'after':
        rs.append(other(ctx, aa, '2').run())
    order = rs if ctx.pick('read', ['first', 'last']) == 'first' else rs[::-1]
    for r in order:
        r.judge()
    files(ctx, aa, rs)


def fault(ctx, how, what):
    aa = setup(ctx)
    a = Request(ctx, aa, 0, what)

    def action():
        if how == 'died':
            raise Died()
        if how == 'file':
            raise OSError(28, 'No space left on device')
        raise ctx.imp('sqlalchemy.exc').OperationalError('statement', {}, Exception('disk I/O error'))
    aa.world.arrange(action, {'died': None, 'file': ('file',), 'database': ('query', 'commit')}[how])
    a.run()
    if aa.world.stop():
        if a.outcome == 'ok':
            a.judge_certificate()
    else:
        a.judge()
    b = other(ctx, aa).run()
    b.judge()


def cases(tier):
    out = [('meanwhile', {'what': w, 'more': None, 'good': g}) for w in ('all', 'id', 'name', 'mine') for g in (True, False)]
    out += [('fault', {'how': h, 'what': 'all'}) for h in ('died', 'file', 'database')]
    if tier == 'thorough':
        out += [('meanwhile', {'what': w, 'more': m, 'good': g}) for w in ('all', 'name') for m in ('in between', 'after') for g in (True, False)]
    return out
