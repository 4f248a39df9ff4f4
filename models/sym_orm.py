"""Model of the part of SQLAlchemy the services use: declarative classes, sessions, queries, on an in-memory store.

Semantics follow SQLite through SQLAlchemy: comparison of texts is exact, primary keys are unique, NOT NULL is enforced,
foreign keys are not; a session sees the committed rows and its own flushed ones; one object per row and session.
"""
import urllib.parse

import z3
from symex import calls, values as V
from symex.core import engine, Unsupported
from symex.values import is_sym, And, Or, Not
from . import symbolic as S


class SQLAlchemyError(Exception):
    pass


class IntegrityError(SQLAlchemyError):
    pass


class OperationalError(SQLAlchemyError):
    pass


def event(kind):
    from models import sym_world
    sym_world.world().event(kind)


class InvalidRequestError(SQLAlchemyError):
    pass


class NoResultFound(InvalidRequestError):
    pass


class MultipleResultsFound(InvalidRequestError):
    pass


def truth(x):
    return x if type(x) in (bool, V.SymBool) else bool(x)


def and3(parts):
    """SQL conjunction: None is NULL"""
    if any(p is False for p in parts):
        return False
    known = [p for p in parts if p is not None]
    if len(known) == len(parts):
        return And(True, *known)
    return None if bool(And(True, *known)) else False


def or3(parts):
    if any(p is True for p in parts):
        return True
    known = [p for p in parts if p is not None]
    if len(known) == len(parts):
        return Or(False, *known)
    return True if bool(Or(False, *known)) else None


def fold(c):
    """ASCII letters compare without case in SQLite's LIKE"""
    if type(c) is int:
        return c + 32 if 65 <= c <= 90 else c
    return z3.If(z3.And(c >= 65, c <= 90), c + 32, c)


def cells_of(s):
    if type(s) is str:
        return [ord(c) for c in s]
    if type(s) is V.SymStr:
        out = V.expand(s.cells)
        if not any(type(c) is V.Blob for c in out):
            return list(out)
    raise Unsupported('LIKE with an opaque text')


def like(text, pattern, escape=None, exact=False):
    """SQLite's LIKE; exact: the pattern has no wildcards"""
    a, p = cells_of(text), cells_of(pattern)
    if escape is not None:
        raise Unsupported('LIKE with an escape character')
    memo = {}

    def eq(x, c):
        if type(x) is int and type(c) is int:
            return z3.BoolVal(x == c)
        return V.z(x) == c if type(c) is int else V.z(x) == V.z(c)

    def go(i, j):
        if (i, j) in memo:
            return memo[i, j]
        if j == len(p):
            r = z3.BoolVal(i == len(a))
        else:
            c = p[j]
            skip = z3.Or(go(i, j + 1), go(i + 1, j) if i < len(a) else z3.BoolVal(False)) if not exact else z3.BoolVal(False)
            one = go(i + 1, j + 1) if i < len(a) else z3.BoolVal(False)
            lit = z3.And(eq(fold(a[i]), fold(c)), one) if i < len(a) else z3.BoolVal(False)
            pc, us = eq(c, ord('%')), eq(c, ord('_'))
            r = z3.If(pc, skip, z3.If(us, one, lit)) if not exact else lit
        memo[i, j] = r
        return r
    return V.mkbool(z3.simplify(go(0, 0)))


# -- expressions -------------------------------------------------------------------------------------------------

class Expr(object):
    __hash__ = object.__hash__

    def value(self, env):
        raise NotImplementedError

    def __eq__(self, o): return Cond(self, '==', o)
    def __ne__(self, o): return Cond(self, '!=', o)
    def __lt__(self, o): return Cond(self, '<', o)
    def __le__(self, o): return Cond(self, '<=', o)
    def __gt__(self, o): return Cond(self, '>', o)
    def __ge__(self, o): return Cond(self, '>=', o)
    def is_(self, o): return Cond(self, '==', o)
    def isnot(self, o): return Cond(self, '!=', o)
    is_not = isnot
    def in_(self, os): return Junction('or', [Cond(self, '==', o) for o in os])
    def notin_(self, os): return Negation(self.in_(os))
    not_in = notin_
    def like(self, o, escape=None): return Like(self, o, escape)
    def ilike(self, o, escape=None): return Like(self, o, escape)
    def notlike(self, o, escape=None): return Negation(Like(self, o, escape))
    not_like = notlike
    def startswith(self, o, **k): return Like(self, (o, '%'), None, **k)
    def endswith(self, o, **k): return Like(self, ('%', o), None, **k)
    def contains(self, o, **k): return Like(self, ('%', o, '%'), None, **k)
    def between(self, a, b): return Junction('and', [Cond(self, '>=', a), Cond(self, '<=', b)])
    def label(self, n): return self
    def asc(self): return (self, False)
    def desc(self): return (self, True)

    def __bool__(self):
        raise TypeError('Boolean value of this clause is not defined')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return S.Missing('sqlalchemy column.' + n)


def val(x, env):
    return x.value(env) if isinstance(x, (Expr, CondBase)) else x


class CondBase(object):
    def __and__(self, o): return Junction('and', [self, o])
    def __or__(self, o): return Junction('or', [self, o])
    def __invert__(self): return Negation(self)

    def __bool__(self):
        raise TypeError('Boolean value of this clause is not defined')


class Cond(CondBase):
    def __init__(self, a, op, b):
        self.a, self.op, self.b = a, op, b

    def __bool__(self):
        # SQLAlchemy defines the truth of == and != by identity
        if self.op in ('==', '!='):
            return (self.a is self.b) == (self.op == '==')
        raise TypeError('Boolean value of this clause is not defined')

    def value(self, env):
        a, b = val(self.a, env), val(self.b, env)
        if a is None or b is None:
            if self.b is None or self.a is None:      # IS NULL / IS NOT NULL
                return (a is None and b is None) == (self.op == '==')
            return None                                # NULL
        if self.op == '==':
            return truth(a == b)
        if self.op == '!=':
            return Not(truth(a == b))
        if self.op == '<':
            return truth(a < b)
        if self.op == '<=':
            return truth(a <= b)
        if self.op == '>':
            return truth(a > b)
        return truth(a >= b)


class Junction(CondBase):
    def __init__(self, kind, parts):
        self.kind, self.parts = kind, list(parts)

    def value(self, env):
        r = [val(p, env) for p in self.parts]
        r = [None if x is None else truth(x) for x in r]
        return and3(r) if self.kind == 'and' else or3(r)


class Negation(CondBase):
    def __init__(self, a):
        self.a = a

    def value(self, env):
        r = self.a.value(env)
        return None if r is None else Not(truth(r))


class Like(CondBase):
    def __init__(self, a, b, escape=None, autoescape=False):
        self.a, self.b, self.escape, self.exact = a, b, escape, autoescape
        if autoescape:
            raise Unsupported('autoescape')

    def value(self, env):
        a = val(self.a, env)
        parts = [val(x, env) for x in (self.b if type(self.b) is tuple else (self.b,))]
        if a is None or any(x is None for x in parts):
            return None
        b = parts[0]
        for x in parts[1:]:
            b = b + x
        return like(a, b, self.escape)


class Func(Expr):
    def __init__(self, name, args):
        self.name, self.args = name, args

    def value(self, env):
        a = [val(x, env) for x in self.args]
        if self.name in ('lower', 'upper', 'trim') and len(a) == 1:
            return None if a[0] is None else getattr(a[0], {'trim': 'strip'}.get(self.name, self.name))()
        raise Unsupported('SQL function ' + self.name)


class FuncMaker(object):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return lambda *a: Func(n, a)


def and_(*a): return Junction('and', a)
def or_(*a): return Junction('or', a)
def not_(a): return Negation(a)


# -- schema ------------------------------------------------------------------------------------------------------

class Type(object):
    def __init__(self, *a, **k):
        self.args = a


class Integer(Type): pass
class BigInteger(Type): pass
class SmallInteger(Type): pass
class String(Type): pass
class Text(Type): pass
class Unicode(Type): pass
class LargeBinary(Type): pass
class Boolean(Type): pass
class Float(Type): pass
class DateTime(Type): pass
class Enum(Type): pass


class ForeignKey(object):
    def __init__(self, target, **k):
        self.target = target


class Column(Expr):
    def __init__(self, *a, **k):
        a = list(a)
        self.colname = a.pop(0) if a and isinstance(a[0], str) else None
        self.fks = [x for x in a if isinstance(x, ForeignKey)]
        self.type = next((x for x in a if not isinstance(x, ForeignKey)), None)
        self.primary_key = k.pop('primary_key', False)
        self.nullable = k.pop('nullable', not self.primary_key)
        self.unique = k.pop('unique', False)
        self.default = k.pop('default', None)
        k.pop('index', None)
        if k or callable(self.default):
            raise Unsupported('column options %s' % sorted(k))
        self.key = None
        self.owner = None

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        return obj.__dict__.get(self.key)

    def __set__(self, obj, value):
        obj.__dict__[self.key] = value

    def value(self, env):
        for cls, row in env:
            if cls is self.owner:
                return row[self.key]
        raise InvalidRequestError('column of an entity that is not queried')


class Relationship(object):
    def __init__(self, target, **k):
        self.target = target
        self.options = k
        self.key = None
        self.owner = None

    def resolve(self):
        t = self.target
        if isinstance(t, str):
            t = self.owner.registry_[t]
        elif not isinstance(t, type):
            t = calls.call(t)
        return t

    def link(self):
        """-> (target class, [(column of owner, column of target)], to_many)"""
        t = self.resolve()
        own, pairs, many = self.owner, [], False
        for c in own.columns_:
            for fk in c.fks:
                tab, col = fk.target.split('.')
                if tab == t.__tablename__:
                    pairs.append((c, t.by_colname_(col)))
        if not pairs:
            many = True
            for c in t.columns_:
                for fk in c.fks:
                    tab, col = fk.target.split('.')
                    if tab == own.__tablename__:
                        pairs.append((own.by_colname_(col), c))
        if not pairs:
            raise InvalidRequestError('no foreign key for relationship')
        return t, pairs, many

    def cond(self):
        t, pairs, many = self.link()
        return t, Junction('and', [Cond(a, '==', b) for a, b in pairs])

    def __get__(self, obj, cls=None):
        if obj is None:
            return self
        if self.key in obj.__dict__:
            raise Unsupported('assigned relationship')
        s = obj.__dict__.get('_session')
        t, pairs, many = self.link()
        if s is None:
            return [] if many else None
        q = s.query(t).filter(*[Cond(b, '==', obj.__dict__.get(a.key)) for a, b in pairs])
        return q.all() if many else q.first()

    def __set__(self, obj, value):
        raise Unsupported('assignment to a relationship')


def relationship(target=None, **k):
    return Relationship(target, **k)


class Table(object):
    def __init__(self, cls):
        self.cls = cls
        self.name = cls.__tablename__

    def delete(self):
        return ('delete', self.cls)


class MetaData(object):
    def __init__(self):
        self.classes = []

    @property
    def sorted_tables(self):
        out, todo = [], sorted(self.classes, key=lambda c: c.__tablename__)
        while todo:
            for c in todo:
                need = set(fk.target.split('.')[0] for x in c.columns_ for fk in x.fks) - {c.__tablename__}
                if not any(o.__tablename__ in need for o in todo):
                    break
            else:
                raise Unsupported('tables that refer to each other')
            todo.remove(c)
            out.append(Table(c))
        return out

    @property
    def tables(self):
        return {c.__tablename__: Table(c) for c in self.classes}

    def create_all(self, bind=None, **k):
        for c in self.classes:
            bind.create(c)

    def drop_all(self, bind=None, **k):
        for c in self.classes:
            bind.store.pop(c.__tablename__, None)


def init(self, **kw):
    cls = type(self)
    for c in cls.columns_:
        self.__dict__[c.key] = None
    for k in kw:
        if not hasattr(cls, k):
            raise TypeError('%r is an invalid keyword argument for %s' % (k, cls.__name__))
        setattr(self, k, kw[k])


def declarative_base(name='Base', **k):
    meta = MetaData()
    registry = {}

    class Meta(type):
        def __init__(cls, n, bases, d):
            type.__init__(cls, n, bases, d)
            if '__tablename__' not in d:
                return
            cls.columns_ = []
            cls.registry_ = registry
            registry[n] = cls
            for key, v in d.items():
                if isinstance(v, Column):
                    v.key = key
                    v.colname = v.colname or key
                    v.owner = cls
                    cls.columns_.append(v)
                elif isinstance(v, Relationship):
                    v.key = key
                    v.owner = cls
            cls.by_colname_ = lambda c, cls=cls: next(x for x in cls.columns_ if x.colname == c)
            cls.__table__ = Table(cls)
            meta.classes.append(cls)

    return Meta(name, (object,), {'metadata': meta, '__init__': init, '__sx_base__': True})


# -- engine and sessions -----------------------------------------------------------------------------------------

class URL(object):
    """of a database"""

    def __init__(self, drivername, username=None, password=None, host=None, port=None, database=None, query=None):
        self.drivername, self.username, self.password = drivername, username, password
        self.host, self.port, self.database, self.query = host, port, database, query or {}

    @classmethod
    def create(cls, drivername, username=None, password=None, host=None, port=None, database=None, query=None):
        if type(port) not in (int, V.SymInt, type(None)):
            port = calls.py_int(port)
        return cls(drivername, username, password, host, port, database, query)

    def render_as_string(self, hide_password=True):
        """user name and password without percent escapes"""
        out = self.drivername + '://'
        if self.username is not None:
            out = out + self.username
            if self.password is not None:
                out = out + ':' + ('***' if hide_password else self.password)
            out = out + '@'
        if self.host is not None:
            out = out + self.host
        if self.port is not None:
            out = out + ':' + calls.to_text(self.port)
        if self.database is not None:
            out = out + '/' + self.database
        return out

    def __str__(self): return self.render_as_string()
    __repr__ = __str__


def until(s, stops):
    """-> (the part before the first of the characters stops, the rest)"""
    i = 0
    while i < len(s) and not any(bool(s[i] == c) for c in stops):
        i += 1
    return s[:i], s[i:]


def unquote(s):
    out, i = '', 0
    hexa = '0123456789abcdefABCDEF'
    while i < len(s):
        if bool(s[i] == '%') and i + 2 < len(s) and any(bool(s[i + 1] == c) for c in hexa) and any(bool(s[i + 2] == c) for c in hexa):
            if is_sym(s[i + 1]) or is_sym(s[i + 2]):
                raise Unsupported('percent escape in a database URL')
            out, i = out + chr(int(s[i + 1] + s[i + 2], 16)), i + 3
            continue
        out = out + s[i]
        i += 1
    return out


def realized(f):
    return lambda *a, **k: f(*[x.realize() if is_sym(x) else x for x in a], **k)


for _f in (urllib.parse.quote, urllib.parse.quote_plus, urllib.parse.unquote, urllib.parse.unquote_plus):
    calls.handle(_f, realized(_f))


def starts(s, c):
    return len(s) > 0 and bool(s[0] == c)


def make_url(url):
    """as the regular expression of sqlalchemy.engine.url"""
    if isinstance(url, URL):
        return url
    if type(url) is not str and not isinstance(url, V.SymStr):
        raise Unsupported('database URL')
    cells = V.SymStr.lift(url)
    if any(type(c) is V.Blob for c in cells):
        raise Unsupported('opaque text in a database URL')
    name, rest = until(url, ':')
    rest = rest[3:]
    user = password = None
    u, r = until(rest, ':/@')
    # the user name extends to the last @ before : or /
    k, last = 0, None
    while k < len(rest) and not any(bool(rest[k] == c) for c in ':/'):
        if bool(rest[k] == '@'):
            last = k
        k += 1
    done = False
    if k < len(rest) and bool(rest[k] == ':'):
        p, r = until(rest[k + 1:], '@')
        if len(r) > 0:
            user, password, rest, done = rest[:k], p, r[1:], True
    if not done and last is not None:
        user, rest = rest[:last], rest[last + 1:]
    host = port = database = query = None
    if starts(rest, '['):
        raise Unsupported('IPv6 host in a database URL')
    h, rest = until(rest, '/:?')
    host = h if len(h) > 0 else None
    if starts(rest, ':'):
        port, rest = until(rest[1:], '/?')
    if starts(rest, '/'):
        database, rest = until(rest[1:], '?')
    if starts(rest, '?'):
        query = {'query': rest[1:]}
    fix = lambda x: None if x is None else unquote(x)
    return URL.create(name, fix(user), fix(password), host, calls.py_int(port) if port is not None and len(port) > 0 else None, fix(database), query)


class Engine(object):
    """Engines for the same URL share one store (the harness decides what it holds)."""
    stores = {}
    foreign_keys = False        # whether they are enforced (by this database)

    def __init__(self):
        self.store = {}         # table name -> rows (dicts by attribute key)
        self.classes = {}
        self.writer = None      # the session that wrote last

    def create(self, cls):
        self.store.setdefault(cls.__tablename__, [])

    def dispose(self):
        pass

    def rows(self, cls):
        if cls.__tablename__ not in self.store:
            raise SQLAlchemyError('no such table: ' + cls.__tablename__)
        return self.store[cls.__tablename__]


def create_engine(url, **k):
    from models import sym_world
    u = make_url(url)
    parts = (u.drivername, u.username, u.password, u.host, u.port, u.database)
    plain = not any(is_sym(x) for x in parts)
    if plain and parts in Engine.stores:
        return Engine.stores[parts]
    e = Engine()
    e.url = u
    e.foreign_keys = sym_world.world().foreign_keys
    sym_world.world().engines.append(u)
    if plain:
        Engine.stores[parts] = e
    return e


def sessionmaker(bind=None, **k):
    if any(k[x] is not True for x in k if x in ('autoflush', 'autocommit')):
        raise Unsupported('session options')
    return SessionFactory(bind, k.get('expire_on_commit', True))


class SessionFactory(object):
    def __init__(self, bind, expire):
        self.bind = bind

    def __call__(self, **k):
        return Session(k.get('bind', self.bind))

    def configure(self, **k):
        self.bind = k.get('bind', self.bind)

    def remove(self):
        pass


class Row(tuple):
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        for k, v in zip(self.__class__.names, self):
            if k == n:
                return v
        raise AttributeError(n)

    names = ()

    def _mapping(self):
        raise Unsupported('row mapping')


EPOCH = [None]          # identifies the path (objects made when modules are loaded outlive paths)


class Session(object):
    def __init__(self, bind=None):
        self.bind = bind
        self.epoch = EPOCH[0]
        self.new = []          # objects added, not flushed
        self.flushed = []      # (class, row) written in this transaction
        self.deleted = []      # rows deleted in this transaction
        self.identity = []     # (class, row, object)

    # rows visible to this session
    def _rows(self, cls):
        base = [r for r in self.bind.rows(cls) if not any(r is d for d in self.deleted)]
        return base + [r for c, r in self.flushed if c is cls]

    def _object(self, cls, row):
        for c, r, o in self.identity:
            if r is row:
                return o
        o = cls.__new__(cls)
        for c in cls.columns_:
            o.__dict__[c.key] = row[c.key]
        o.__dict__['_session'] = self
        self.identity.append((cls, row, o))
        return o

    def add(self, o):
        if not hasattr(type(o), 'columns_'):
            raise InvalidRequestError('not a mapped object')
        if any(x is o for _, _, x in self.identity) or any(x is o for x in self.new):
            return
        old = o.__dict__.get('_session')
        if old is not None and old.epoch is EPOCH[0] and old is not self:
            if not any(x is o for x in old.new) and not any(x is o for _, _, x in old.identity):
                raise Unsupported('adding a detached object')
            raise InvalidRequestError('object is attached to another session')
        o.__dict__['_session'] = self
        self.new.append(o)

    def add_all(self, os):
        for o in os:
            self.add(o)

    bulk_save_objects = add_all

    def delete(self, o):
        self.flush()
        for c, r, x in self.identity:
            if x is o:
                if any(r is f for _, f in self.flushed):
                    self.flushed = [(c2, f) for c2, f in self.flushed if f is not r]
                else:
                    self.deleted.append(r)
                return
        raise InvalidRequestError('object is not persisted')

    def expunge(self, o):
        self.new = [x for x in self.new if x is not o]
        self.identity = [t for t in self.identity if t[2] is not o]

    def _fail(self, why):
        self.rollback()
        raise IntegrityError(why)

    def flush(self):
        # changed objects first
        for i, (cls, row, o) in enumerate(self.identity):
            changed = [c.key for c in cls.columns_ if o.__dict__.get(c.key) is not row[c.key]]
            if changed:
                self._lock()
                new = dict(row)
                for k in changed:
                    new[k] = o.__dict__.get(k)
                for c in cls.columns_:
                    if not c.nullable and new[c.key] is None:
                        self._fail('NOT NULL constraint failed')
                if any(r is row for _, r in self.flushed):
                    self.flushed = [(c2, new if r is row else r) for c2, r in self.flushed]
                else:
                    self.deleted.append(row)
                    self.flushed.append((cls, new))
                self.identity[i] = (cls, new, o)
        todo, self.new = self.new, []
        if todo:
            self._lock()
        for o in todo:
            cls = type(o)
            row = {}
            for c in cls.columns_:
                v = o.__dict__.get(c.key)
                if v is None and c.default is not None:
                    v = c.default
                    o.__dict__[c.key] = v
                if type(v) is int and isinstance(c.type, (String, Text)):
                    v = str(v)
                row[c.key] = v
            pk = [c for c in cls.columns_ if c.primary_key]
            if len(pk) == 1 and row[pk[0].key] is None and isinstance(pk[0].type, (Integer, type)):
                used = [r[pk[0].key] for r in self._rows(cls)]
                if any(is_sym(u) for u in used):
                    raise Unsupported('automatic key')
                row[pk[0].key] = max(used, default=0) + 1
                o.__dict__[pk[0].key] = row[pk[0].key]
            for c in cls.columns_:
                if not c.nullable and row[c.key] is None:
                    self._fail('NOT NULL constraint failed')
            for r in self._rows(cls):
                if bool(And(*[truth(r[c.key] == row[c.key]) for c in pk])):
                    self._fail('UNIQUE constraint failed')
                for c in cls.columns_:
                    if c.unique and row[c.key] is not None and bool(truth(r[c.key] == row[c.key])):
                        self._fail('UNIQUE constraint failed')
            self.flushed.append((cls, row))
            self.identity.append((cls, row, o))
        for o in todo:
            self._parents(type(o), next(r for c, r, x in self.identity if x is o))

    def _parents(self, cls, row):
        """foreign keys refer to existing rows"""
        if not self.bind.foreign_keys:
            return
        for c in cls.columns_:
            for fk in c.fks:
                table, col = fk.target.split('.')
                target = next(x for x in cls.metadata.classes if x.__tablename__ == table)
                k = next(x.key for x in target.columns_ if (x.colname or x.key) == col)
                if row[c.key] is not None and not any(bool(truth(r[k] == row[c.key])) for r in self._rows(target)):
                    self._fail('FOREIGN KEY constraint failed')

    def _unreferenced(self, cls, gone):
        if not self.bind.foreign_keys:
            return
        for other in cls.metadata.classes:
            for c in other.columns_:
                for fk in c.fks:
                    table, col = fk.target.split('.')
                    if table == cls.__tablename__:
                        k = next(x.key for x in cls.columns_ if (x.colname or x.key) == col)
                        for r in self._rows(other):
                            if r[c.key] is not None and any(bool(truth(g[k] == r[c.key])) for g in gone):
                                self._fail('FOREIGN KEY constraint failed')

    def _lock(self):
        other = self.bind.writer
        if other is not None and other is not self and (other.flushed or other.deleted):
            self.rollback()
            raise OperationalError('database is locked')
        self.bind.writer = self

    def commit(self):
        event('commit')
        self.flush()
        for r in self.deleted:
            found = False
            for rows in self.bind.store.values():
                for i, x in enumerate(rows):
                    if x is r:
                        del rows[i]
                        found = True
                        break
            if not found:
                raise Unsupported('row changed by another session')
        for cls, r in self.flushed:
            self.bind.rows(cls).append(r)
        self.flushed, self.deleted = [], []

    def rollback(self):
        for o in self.new:
            o.__dict__['_session'] = None
        gone = [r for _, r in self.flushed]
        self.identity = [t for t in self.identity if not any(t[1] is g for g in gone)]
        self.new, self.flushed, self.deleted = [], [], []
        for cls, row, o in self.identity:
            for c in cls.columns_:
                o.__dict__[c.key] = row[c.key]

    def close(self):
        self.rollback()
        self.identity = []

    def expire_all(self):
        pass

    def refresh(self, o):
        pass

    def __enter__(self): return self
    def __exit__(self, *a): self.close()

    def query(self, *entities):
        return Query(self, entities)

    def get(self, cls, ident):
        return self.query(cls).get(ident)

    def merge(self, o):
        """the row with the same primary key takes the state of o, or a new one is added"""
        cls = type(o)
        pk = [c for c in cls.columns_ if c.primary_key]
        if any(o.__dict__.get(c.key) is None for c in pk):
            there = None
        else:
            there = self.query(cls).filter(*[Cond(c, '==', o.__dict__.get(c.key)) for c in pk]).first()
        if there is None:
            there = cls(**{c.key: o.__dict__.get(c.key) for c in cls.columns_})
            self.add(there)
        else:
            for c in cls.columns_:
                there.__dict__[c.key] = o.__dict__.get(c.key)
        return there

    def scalars(self, stmt, *a):
        return self.execute(stmt, *a).scalars()

    def scalar(self, stmt, *a):
        return self.execute(stmt, *a).scalar()

    def execute(self, stmt, *a):
        if isinstance(stmt, Query) and not a:
            return Result(stmt._with(session=self)._run(), stmt.entities)
        if isinstance(stmt, tuple) and stmt[0] == 'delete' and not a:
            event('query')
            self.flush()
            gone = self._rows(stmt[1])
            if gone:
                self._lock()
            self._unreferenced(stmt[1], gone)
            for r in gone:
                self.deleted.append(r)
            self.deleted = [r for r in self.deleted if not any(r is f for _, f in self.flushed)]
            self.flushed = [(c, r) for c, r in self.flushed if c is not stmt[1]]
            return None
        raise Unsupported('SQL statement')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return S.Missing('sqlalchemy session.' + n)


class Query(object):
    def __init__(self, session, entities, joins=(), conds=(), order=(), limit_=None, last=None):
        self.session, self.entities = session, list(entities)
        self.joins, self.conds, self.order, self.limit_, self.last = list(joins), list(conds), list(order), limit_, last

    def _with(self, **k):
        q = Query(self.session, self.entities, self.joins, self.conds, self.order, self.limit_, self.last)
        for n in k:
            setattr(q, n, k[n])
        return q

    def _first_class(self):
        e = self.entities[0]
        return e.owner if isinstance(e, Column) else e

    def filter(self, *conds):
        return self._with(conds=self.conds + list(conds))

    where = filter

    def filter_by(self, **k):
        cls = self.last or self._first_class()
        return self.filter(*[Cond(getattr(cls, n), '==', k[n]) for n in k])

    def join(self, target, on=None, **k):
        if k:
            raise Unsupported('join options')
        if isinstance(target, Relationship):
            cls, cond = target.cond()
            known = self._classes()
            if target.owner not in known:
                raise InvalidRequestError('join from an entity that is not queried')
        elif isinstance(target, type):
            cls = target
            if isinstance(on, Relationship):
                cls, cond = on.cond()
            elif on is not None:
                cond = on
            else:
                cond = None
                for k2 in self._classes():
                    if k2 is cls:
                        continue
                    for a, b in ((k2, cls), (cls, k2)):
                        pairs = [(c, b.by_colname_(fk.target.split('.')[1])) for c in a.columns_ for fk in c.fks
                                 if fk.target.split('.')[0] == b.__tablename__]
                        if pairs and cond is None:
                            cond = Junction('and', [Cond(x, '==', y) for x, y in pairs])
                if cond is None:
                    raise InvalidRequestError('no way to join')
        else:
            raise Unsupported('join')
        return self._with(joins=self.joins + [(cls, cond)], last=cls)

    def outerjoin(self, *a, **k):
        raise Unsupported('outer join')

    def order_by(self, *cols):
        return self._with(order=self.order + list(cols))

    def limit(self, n):
        return self._with(limit_=n)

    def distinct(self):
        raise Unsupported('distinct')

    def options(self, *a):
        return self

    def _classes(self):
        out = []
        for e in self.entities:
            c = e.owner if isinstance(e, Column) else e
            if not isinstance(c, type):
                raise Unsupported('queried entity')
            if c not in out:
                out.append(c)
        for c, _ in self.joins:
            if c not in out:
                out.append(c)
        return out

    def _cond_classes(self, c, out):
        if isinstance(c, Column):
            if c.owner not in out:
                out.append(c.owner)
        elif isinstance(c, Cond):
            self._cond_classes(c.a, out)
            self._cond_classes(c.b, out)
        elif isinstance(c, Junction):
            for p in c.parts:
                self._cond_classes(p, out)
        elif isinstance(c, Negation):
            self._cond_classes(c.a, out)
        elif isinstance(c, Like):
            for p in (c.a,) + (c.b if type(c.b) is tuple else (c.b,)):
                self._cond_classes(p, out)
        elif isinstance(c, Func):
            for p in c.args:
                self._cond_classes(p, out)

    def _run(self):
        event('query')
        self.session.flush()
        classes = self._classes()
        for c in self.conds:
            self._cond_classes(c, classes)         # implicit cross join
        envs = [[]]
        for cls in classes:
            rows = self.session._rows(cls)
            envs = [e + [(cls, r)] for e in envs for r in rows]
        out = []
        conds = [c for _, c in self.joins] + self.conds
        for env in envs:
            r = [val(c, env) for c in conds]
            if any(x is None for x in r):
                continue                                # NULL is not true
            if bool(And(True, *[truth(x) for x in r])):
                out.append(env)
        if self.order:
            for o in reversed(self.order):
                col, rev = o if isinstance(o, tuple) else (o, False)
                out = calls.py_sorted(out, key=lambda env: val(col, env), reverse=rev)
        if self.limit_ is not None:
            out = out[:self.limit_]
        return [self._result(env) for env in out]

    def _result(self, env):
        vals = []
        for e in self.entities:
            if isinstance(e, Expr):
                vals.append(e.value(env))
            else:
                vals.append(self.session._object(e, next(r for c, r in env if c is e)))
        if len(self.entities) == 1 and isinstance(self.entities[0], type):
            return vals[0]
        cls = type('Row', (Row,), {'names': [e.key if isinstance(e, Column) else getattr(e, '__name__', None) for e in self.entities]})
        return cls(vals)

    def all(self): return self._run()

    def first(self):
        r = self._run()
        return r[0] if r else None

    def one_or_none(self):
        r = self._run()
        if len(r) > 1:
            raise MultipleResultsFound('Multiple rows were found when one or none was required')
        return r[0] if r else None

    def one(self):
        r = self.one_or_none()
        if r is None:
            raise NoResultFound('No row was found when one was required')
        return r

    def scalar(self):
        r = self.one_or_none()
        return r[0] if isinstance(r, Row) else r

    def count(self): return len(self._run())
    def __iter__(self): return iter(self._run())

    def __getitem__(self, i):
        return self._run()[i]

    def get(self, ident):
        cls = self.entities[0]
        pk = [c for c in cls.columns_ if c.primary_key]
        ids = ident if type(ident) is tuple else (ident,)
        return self.filter(*[Cond(c, '==', v) for c, v in zip(pk, ids)]).first()

    def exists(self):
        raise Unsupported('exists')

    def delete(self, **k):
        self.session.flush()
        n = 0
        for o in self._run():
            self.session.delete(o)
            n += 1
        return n

    def update(self, values, **k):
        n = 0
        for o in self._run():
            for c in values:
                setattr(o, c.key if isinstance(c, Column) else c, values[c])
            n += 1
        self.session.flush()
        return n

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return S.Missing('sqlalchemy query.' + n)


class Result(object):
    """of execute(select(...))"""

    def __init__(self, found, entities):
        one = len(entities) == 1 and isinstance(entities[0], type)
        self.found = [(x,) for x in found] if one else [tuple(x) for x in found]

    def scalars(self): return Scalars([x[0] for x in self.found])
    def scalar(self): return self.found[0][0] if self.found else None
    def all(self): return self.found
    fetchall = all
    def first(self): return self.found[0] if self.found else None
    fetchone = first
    def __iter__(self): return iter(self.found)

    def _one(self, none):
        if len(self.found) > 1:
            raise MultipleResultsFound('Multiple rows were found')
        if not self.found and not none:
            raise NoResultFound('No row was found')
        return self.found[0] if self.found else None

    def one(self): return self._one(False)
    def one_or_none(self): return self._one(True)

    def scalar_one(self): return self._one(False)[0]

    def scalar_one_or_none(self):
        r = self._one(True)
        return None if r is None else r[0]


class Scalars(Result):
    def __init__(self, found):
        self.found = found


def select(*entities):
    return Query(None, entities)


def reset():
    EPOCH[0] = object()
    Engine.stores = {}


S.RESETS.append(reset)
_types = dict(Integer=Integer, BigInteger=BigInteger, SmallInteger=SmallInteger, String=String, Text=Text, Unicode=Unicode,
              LargeBinary=LargeBinary, Boolean=Boolean, Float=Float, DateTime=DateTime, Enum=Enum)
_exc = dict(SQLAlchemyError=SQLAlchemyError, OperationalError=OperationalError, DBAPIError=SQLAlchemyError, IntegrityError=IntegrityError, InvalidRequestError=InvalidRequestError,
            NoResultFound=NoResultFound, MultipleResultsFound=MultipleResultsFound)
S.model('sqlalchemy', Column=Column, ForeignKey=ForeignKey, create_engine=create_engine, and_=and_, or_=or_, not_=not_, select=select,
        func=FuncMaker(), delete=lambda x: ('delete', getattr(x, 'cls', x)), URL=URL, make_url=make_url, **_types)
S.model('sqlalchemy.engine', URL=URL, make_url=make_url, create_engine=create_engine)
S.model('sqlalchemy.engine.url', URL=URL, make_url=make_url)
S.model('sqlalchemy.types', **_types)
S.model('sqlalchemy.ext')
S.model('sqlalchemy.ext.declarative', declarative_base=declarative_base)
S.model('sqlalchemy.orm', relationship=relationship, sessionmaker=sessionmaker, declarative_base=declarative_base,
        Session=Session, scoped_session=lambda f: f)
S.model('sqlalchemy.orm.exc', **_exc)
S.model('sqlalchemy.exc', **_exc)
