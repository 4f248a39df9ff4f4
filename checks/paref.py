"""Set-up of a policy authority with its database, certificates for it, and session requests."""
import base64
import io

from checks import certref as R

CONF = {'PAUTH_NAME': 'the policy authority', 'PAUTH_UID': 'hgabac://pa', 'LOG_NAME': 'pauth'}
DBCONF = {'DB_TYPE': 'MEMORY', 'LOG_NAME': 'aauth'}
NOW = 1600000000
FORMATS = ['BYTES', 'BASE64', 'BASE64FULL']


class PA(object):
    """authorities: [(uid, key index or key text, trust level)]"""

    def __init__(self, ctx, authorities, conf=None, now=4 * NOW, ticks=0, rand=0xABCDEF0123):
        self.ctx = ctx
        ctx.imp('hgaa.log').SERVICE_LOG.debugging[0] = True
        self.mod = ctx.imp('hgaa.services.pauth')
        self.sc = ctx.imp('hgaa.schema.pauth')
        self.ac = ctx.imp('hgaa.attcert')
        self.db = ctx.imp('hgaa.database')
        self.faults = ctx.imp('ladon.exceptions.service')
        w = self.world = ctx.world()
        if now is not None:
            w.set_now(now, ticks)
        if rand is not None:
            w.fix_random(rand)
        c = ctx.imp('hgaa.config').SERVICE_CONFIG
        self.conf = dict(CONF)
        self.conf.update(conf or {})
        for n in ('AAUTH', 'PAUTH'):
            for k in DBCONF:
                c[n][k] = DBCONF[k]
        for k in self.conf:
            if k not in ('HOST', 'PORT'):
                c['PAUTH'][k] = self.conf[k]
        c['LADON']['SERVICE_HOST'] = self.conf.get('HOST', 'example.org')
        c['LADON']['SERVICE_PORT'] = self.conf.get('PORT', '8888')
        for n in ('AAUTH', 'PAUTH'):
            self.sc.PAuthBase.metadata.create_all(self.db.get_engine(n))
        self.service = self.mod.PolicyAuthority()
        s = self.session()
        s.add_all([self.sc.AttributeAuthority(uid=u, name='n', url='http://a/', key_cipher='RSA', key_size=1024,
                                              pub_key=k if not isinstance(k, int) else w.pem(k).decode('ascii'), trust_level=t)
                   for u, k, t in authorities])
        s.commit()
        s.close()

    def session(self):
        return self.db.get_session('PAUTH')()

    def presented(self, data, version=1, fmt=None):
        fmt = self.ac.ExportFormat.BYTES.value if fmt is None else fmt
        return self.mod.AttributeCertificateType(data=self.mod.attachment(File(data)), version=version, format=fmt)

    def certset(self, certs):
        return self.mod.AttributeCertificateSet(attribute_certificates=certs)

    def start(self, certset, service='/service/1', addr='10.1.2.3'):
        """-> ('ok', answer) or ('fault', the client fault); anything else propagates"""
        try:
            return 'ok', self.service.start_session(service, certset, REMOTE_ADDR=addr)
        except self.faults.ClientFault as f:
            return 'fault', f

    def stored(self):
        """-> sessions, certificates, links as lists of dictionaries (in no particular order)"""
        s = self.session()
        out = []
        for cls, fields in ((self.sc.Session, ['id', 'cert_start', 'cert_valid_till', 'session_start', 'initial_service_ip', 'service_uid', 'session_valid_till']),
                            (self.sc.AttributeCertificate, ['serial', 'certificate', 'format', 'version', 'valid_till', 'hash']),
                            (self.sc.AttributeCertificateAssignment, ['ac_serial', 'session_id'])):
            out.append([dict((f, getattr(o, f)) for f in fields) for o in s.query(cls).all()])
        s.close()
        return out

    def number(self):
        return [len(l) for l in self.stored()]


class File(object):
    def __init__(self, data):
        self.data = data

    def read(self, *a):
        return self.data

    def close(self):
        pass


def cert(ctx, pa, tag='c', uid='/aa/1', key=0, how=None, serial=77, issued=NOW - 100, after=NOW - 100, before=NOW + 1000, sign=None, atts=1,
         form='pem'):
    """a certificate signed by the key it names (or by key sign; -1: not signed) -> certificate"""
    w = pa.world
    p = R.parts(ctx, tag, how, atts, 0, True, False)
    for sec, f, v in (('issuer', 'uid', uid), ('issuer', 'pub_key', (w.pem if form == 'pem' else w.der)(key)), ('info', 'serial', serial), ('info', 'issued', issued),
                      ('rev', 'valid_after', after), ('rev', 'valid_before', before)):
        p[sec].values[f] = v
        setattr(p[sec].obj, f, v)
    c = R.Cert(p).build(ctx)
    sign = key if sign is None else sign
    if sign >= 0:
        c.sign(w.key(sign))
    return c


def export(pa, c, fmt='BYTES'):
    out = c.export_ac(pa.ac.ExportFormat[fmt])
    return out.encode('utf-8') if isinstance(out, str) else bytes(out)


def b64_160(n):
    return base64.b64encode(n.to_bytes(20, 'little')).decode('ascii')


def in_time(ctx, q, after, before):
    """-> (must be accepted, may be accepted) at q quarter seconds"""
    return ctx.And(4 * (after + 1) <= q, q < 4 * before), ctx.And(4 * after < q, q < 4 * before)
