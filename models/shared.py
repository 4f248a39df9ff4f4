"""Stand-ins used in both executions: ladon is not installed here, and hgaa.log opens log files when it is imported."""
import collections
import io
import logging


def ladonize(*types, **options):
    def decorate(f):
        return f
    return decorate


class LadonType(object):
    def __init__(self, **k):
        for n in k:
            setattr(self, n, k[n])


class ServiceFault(Exception):
    """faultcode/faultstring as in ladon.exceptions.service"""

    def __init__(self, faultcode, faultstring, detail=None, mustUnderstand=None):
        super().__init__(faultstring)
        self.faultcode = faultcode
        self.faultstring = faultstring
        self.detail = detail

    def __str__(self):
        return self.faultstring


class ClientFault(ServiceFault):
    def __init__(self, faultstring, detail=None):
        super().__init__('client', faultstring, detail)


class ServerFault(ServiceFault):
    def __init__(self, faultstring, detail=None):
        super().__init__('server', faultstring, detail)


class attachment(object):
    def __init__(self, bufferobj, headers=None):
        self.bufferobj = bufferobj
        self.headers = headers or {}

    def read(self, *a):
        return self.bufferobj.read(*a)

    def close(self):
        return self.bufferobj.close()


class JSONWSPClient(object):
    """Records the calls; a harness sets what it answers."""
    made = []
    answer = None

    def __init__(self, description, via_proxy=False):
        self.url = description
        self.calls = []
        JSONWSPClient.made.append(self)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)

        def invoke(**args):
            self.calls.append((name, args))
            return JSONWSPClient.answer(name, args)
        return invoke


class Log(object):
    """A logger that keeps the last messages; all levels are on, so that the messages are still built (a check can turn debugging off)."""
    debugging = [True]
    records = collections.deque(maxlen=500)         # (level, message, arguments)
    name = 'log'
    level = logging.DEBUG
    handlers = ()

    def log(self, level, msg='', *a, **k):
        if self.isEnabledFor(level):
            self.records.append((level, msg, a))

    def debug(self, msg='', *a, **k):
        self.log(logging.DEBUG, msg, *a)

    def info(self, msg='', *a, **k):
        self.log(logging.INFO, msg, *a)

    def warning(self, msg='', *a, **k):
        self.log(logging.WARNING, msg, *a)

    def error(self, msg='', *a, **k):
        self.log(logging.ERROR, msg, *a)

    warn, exception, critical = warning, error, error

    def getChild(self, name):
        return self

    def isEnabledFor(self, level):
        return self.debugging[0] or level > logging.DEBUG

    def addHandler(self, h):
        pass

    def setLevel(self, l):
        pass


class LadonWSGIApplication(object):
    """Records what it is to serve"""
    made = []

    def __init__(self, service_list, path_list=None, catalog_name=None, catalog_desc=None, logging=0, **k):
        self.service_list = list(service_list)
        self.path_list = path_list
        LadonWSGIApplication.made.append(self)


class Server(object):
    made = []

    def __init__(self, host, port, app):
        self.host, self.port, self.app, self.served = host, port, app, 0
        Server.made.append(self)

    def serve_forever(self, *a, **k):
        self.served += 1

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return None

    def server_close(self):
        pass


def make_server(host, port, app, *a, **k):
    return Server(host, port, app)


def nothing(*a, **k):
    return None


def make_logger(*a, **k):
    return Log()


def str_to_log_level(s):
    return logging.DEBUG


def ladon():
    return {
        'ladon': {},
        'ladon.ladonizer': {'ladonize': ladonize},
        'ladon.types': {},
        'ladon.types.ladontype': {'LadonType': LadonType},
        'ladon.types.attachment': {'attachment': attachment},
        'ladon.compat': {'PORTABLE_STRING': str, 'PORTABLE_BYTES': bytes},
        'ladon.exceptions': {},
        'ladon.exceptions.service': {'ClientFault': ClientFault, 'ServerFault': ServerFault, 'ServiceFault': ServiceFault},
        'ladon.clients': {},
        'ladon.server': {},
        'ladon.server.wsgi': {'LadonWSGIApplication': LadonWSGIApplication},
        'ladon.tools': {},
        'ladon.tools.log': {'set_loglevel': nothing, 'set_logfile': nothing, 'set_log_backup_count': nothing, 'set_log_maxsize': nothing},
        'wsgiref': {},
        'wsgiref.simple_server': {'make_server': make_server},
        'ladon.clients.jsonwsp': {'JSONWSPClient': JSONWSPClient},
    }


def log():
    return {'SERVICE_LOG': Log(), 'CLIENT_LOG': Log(), 'LADON_LOG': Log(), 'make_logger': make_logger,
            'str_to_log_level': str_to_log_level}
