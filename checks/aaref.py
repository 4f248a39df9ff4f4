"""Set-up of an attribute authority with its database, and requests to it."""
CONF = {'AAUTH_ID': 'the authority', 'A_URI': 'hgabac://aa', 'AC_EXPIRE_LENGTH': '3600', 'REV_URI': 'http://rev/', 'KEY_PASS': 'x',
        'DB_TYPE': 'MEMORY', 'PASS_PEPPER': 'PEPPER', 'LOG_NAME': 'aauth'}
PEPPER = 'PEPPER'


class AA(object):
    """key: index of the fixture key; users: [(id, name, password)]; atts: [(id, name, type)]; assigned: [(user id, att id, value)];
    now and serial fix the clock and the first random number (None: any)"""

    def __init__(self, ctx, users, atts=(), assigned=(), key=0, conf=None, pepper=None, now=1600000000, serial=0xABCDEF0123, debug=True):
        self.ctx = ctx
        ctx.imp('hgaa.log').SERVICE_LOG.debugging[0] = debug
        self.mod = ctx.imp('hgaa.services.aauth')
        self.ac = ctx.imp('hgaa.attcert')
        self.faults = ctx.imp('ladon.exceptions.service')
        w = self.world = ctx.world()
        if now is not None:
            w.set_now(4 * now)
        if serial is not None:
            w.fix_random(serial)
        c = ctx.imp('hgaa.config').SERVICE_CONFIG
        values = dict(CONF)
        values.update(conf or {})
        if pepper is not None:
            values['PASS_PEPPER'] = pepper
        for n in values:
            c['AAUTH'][n] = values[n]
        c['AAUTH']['KEY_FILE'] = w.add_file('key.pem', w.private_pem(key))
        c['LADON']['SERVICE_HOST'] = values.get('HOST', 'example.org')
        c['LADON']['SERVICE_PORT'] = values.get('PORT', '8888')
        self.conf = values
        sc, db = ctx.imp('hgaa.schema.aauth'), ctx.imp('hgaa.database')
        engine = db.get_engine('AAUTH')
        sc.AAuthBase.metadata.create_all(engine)
        s = db.get_session('AAUTH')()
        rows = [sc.User(id=i, username=n, password=w.hash_password(p + values['PASS_PEPPER'])) for i, n, p in users]
        rows += [sc.Attribute(id=i, name=n, type=t) for i, n, t in atts]
        rows += [sc.AttributeAssignment(user_id=u, att_id=a, value=v) for u, a, v in assigned]
        s.add_all(rows)
        s.commit()
        s.close()
        self.service = self.mod.AttributeAuthority()

    def credentials(self, username, password, type=0):
        return self.mod.Credentials(type=type, username=username, password=password)

    def public_key(self, key=b'the public key', cipher='RSA', size=2048):
        ka = self.mod.KeyAlgorithm(cipher=cipher, key_size=size)
        return self.mod.PublicKey(public_key=key, key_algorithm=ka)

    def request(self, credentials, names=(), ids=(), key=None, addr='10.1.2.3', exports=None):
        """-> ('ok', answer, certificate bytes) or ('fault', the client fault, None); anything else propagates"""
        before = len(self.world.written())
        ex = {'REMOTE_ADDR': addr}
        ex.update(exports or {})
        al = self.mod.AttributeList(attribute_names=list(names), attribute_ids=list(ids))
        try:
            r = self.service.attribute_request(credentials, key or self.public_key(), al, **ex)
        except self.faults.ClientFault as f:
            self.ctx.check(len(self.world.written()) == before, 'a refused request stores no certificate')
            return 'fault', f, None
        return 'ok', r, self.bytes_of(r)

    def bytes_of(self, r):
        return r.data.read()

    def certificate(self, data):
        return self.ac.AttributeCertificate.import_ac(bytearray(data))


def user_attributes(cert):
    """attributes other than connection attributes"""
    return [a for a in cert.att_set if not a.att_id.startswith('/attribute/connection/')]
