"""Stand-in for the REST client. Shared by harnesses."""
from pyogp.lib.base.exc import HTTPError


class Headers(object):
    """header names are case-insensitive"""
    def __init__(self, ct):
        self.ct = ct

    def __getitem__(self, k):
        if k.lower() == 'content-type':
            return self.ct
        raise KeyError(k)

    def get(self, k, d=None):
        if k.lower() == 'content-type':
            return self.ct
        return d

    def has_key(self, k):
        return k.lower() == 'content-type'

    __contains__ = has_key

    def keys(self):
        return ['Content-Type']

    def items(self):
        return [('Content-Type', self.ct)]

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return 1


class Response(object):
    def __init__(self, ct, body):
        self.headers = Headers(ct)
        self.content_type = ct
        self.body = body
        self.status = '200 OK'
        self.status_int = 200


class Fp(object):
    def __init__(self, body):
        self.body = body

    def read(self, size=-1):
        n = len(self.body) if size is None or size < 0 else size
        b = self.body[:n]
        self.body = self.body[n:]
        return b

    def close(self):
        pass


class Rest(object):
    """plays answers: a Response, ('fail', code, msg, body) or an exception; records the requests"""
    def __init__(self, answers):
        self.answers = list(answers)
        self.calls = []

    def answer(self):
        a = self.answers.pop(0)
        if isinstance(a, tuple):
            raise HTTPError(a[1], a[2], Fp(a[3]))
        if isinstance(a, Exception):
            raise a
        return a

    def GET(self, url, headers={}):
        self.calls.append(('GET', url, None, dict(headers)))
        return self.answer()

    def POST(self, url, data, headers={}):
        self.calls.append(('POST', url, data, dict(headers)))
        return self.answer()
