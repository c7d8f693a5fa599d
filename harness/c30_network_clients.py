"""C30: the network clients send exactly what they are given and report exactly what happened."""
import h
import lib_net
from pyogp.lib.base.network.net import NetUDPClient
from pyogp.lib.base.network.stdlib_client import StdLibClient, HTTPError
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message.message import Message, Block

INFO = dict(
    bounds='datagrams of 0 to 5 (quick) or 12 (thorough) arbitrary bytes and two long ones; arbitrary ports; histories of 3 receptions and failures; HTTP '
           'status codes 100 to 999, two clients side by side; bodies of up to 4 arbitrary bytes and of 70000 bytes, arbitrary header values of 2 characters; hosts with every combination of '
           'missing, zero and usable address and port',
    outside='the kernel and the HTTP library; answers without a content type',
    stubs='socket.socket and urllib2.urlopen are stand-ins; webob.Response is modelled (and the real one is used when paths are replayed)',
)
URL = 'http://127.0.0.1:1/x'


class Boom(Exception):
    pass


class Sock(object):
    def __init__(self, script):
        self.script = list(script)
        self.sent = []

    def recvfrom(self, size):
        r = self.script.pop(0)
        if isinstance(r, Exception):
            raise r
        return r[0][:size], r[1]

    def sendto(self, data, addr):
        if self.script and isinstance(self.script[0], Exception):
            raise self.script.pop(0)
        self.sent.append((data, addr))
        return len(data)


def address(n):
    return (h.choice('ip%d' % n, ['10.0.0.1', '10.0.0.2']), h.int('port%d' % n, 1, 65535))


def udp_sent(n):
    data = h.bytes('data', n) if n < 100 else 'x' * n
    a = address(0)
    s = Sock([])
    c = NetUDPClient()
    c.send_packet(s, data, Host(a))
    h.check(h.eq(s.sent, [(data, a)]), 'a datagram is sent once, as it is, to its host')
    h.check(c.get_sender().ip is None, 'sending changes no sender')


def udp_refused():
    s = Sock([])
    c = NetUDPClient()
    try:
        c.send_packet(s, None, Host(address(0)))
        r = 'sent'
    except Exception, e:
        r = 'refused'
    h.check(r == 'refused' and s.sent == [], 'no data is refused and nothing sent')
    s = Sock([Boom('x')])
    try:
        c.send_packet(s, 'x', Host(address(1)))
        r = 'sent'
    except Boom:
        r = 'boom'
    h.check(r == 'boom', 'an error of the socket reaches the sender')


def udp_received(n, size):
    """histories of receptions"""
    c = NetUDPClient()
    script, want = [], []
    for k in range(n):
        kind = h.choice('kind', ['data', 'empty', 'error', 'odd error'])
        if kind == 'error':
            script.append(Boom('x'))
            want.append(('', 0, None))
        elif kind == 'odd error':
            script.append(KeyError('x'))
            want.append(('', 0, None))
        else:
            d = h.bytes('data', size if kind == 'data' else 0)
            a = address(k)
            script.append((d, a))
            want.append((d, len(d), a))
    s = Sock(script)
    seen = []
    last = None
    for k in range(n):
        d, length = c.receive_packet(s)
        h.check(h.eq(d, want[k][0]), 'the datagram is returned as it came')
        h.check(length == want[k][1], 'with its length')
        if want[k][2] is not None:
            last = want[k][2]
        x = c.get_sender()
        if last is None:
            h.check(x.ip is None and x.port is None, 'there is no sender before the first datagram')
        else:
            h.check(h.and_(h.eq(x.ip, last[0]), h.eq(x.port, last[1])), 'the sender is that of the last datagram')
        seen.append((x, last))
    for x, a in seen:
        if a is not None:
            h.check(h.and_(h.eq(x.ip, a[0]), h.eq(x.port, a[1])), 'senders seen earlier do not change')


def udp_long():
    """a datagram as long as the protocol allows is not cut"""
    c = NetUDPClient()
    d = 'x' * h.choice('length', [1200, 1500, 8192, 9998]) + h.bytes('end', 2)
    got, n = c.receive_packet(Sock([(d, address(0))]))
    h.check(h.eq(got, d), 'a long datagram is not cut')
    h.check(n == len(d), 'and has its length')


def udp_socket():
    made = []

    def f(*a):
        made.append(a)
        return 'sock'
    h.patch_lib('socket', 'socket', f)
    c = NetUDPClient()
    lib = h.lib('socket')
    h.check(c.start_udp_connection() == 'sock', 'the new socket is returned')
    h.check(len(made) == 1 and made[0][:2] == (lib.AF_INET, lib.SOCK_DGRAM), 'it is a UDP socket')
    two = NetUDPClient()
    h.check(two.get_sender() is not c.get_sender(), 'clients share no sender')


def udp_two(n):
    """two clients: each knows the sender of its own last datagram"""
    cs = [NetUDPClient(), NetUDPClient()]
    last = [None, None]
    for k in range(n):
        w = h.choice('client', [0, 1])
        a = address(k)
        cs[w].receive_packet(Sock([('x', a)]))
        last[w] = a
        for i in (0, 1):
            x = cs[i].get_sender()
            if last[i] is None:
                h.check(x.ip is None and x.port is None, 'a client that received nothing knows no sender')
            else:
                h.check(h.and_(h.eq(x.ip, last[i][0]), h.eq(x.port, last[i][1])), 'each client knows its own last sender')


class Result(object):
    def __init__(self, code, body, headers, msg):
        self.code = code
        self.msg = msg
        self.body = body
        self.headers = headers

    def read(self, size=-1):
        n = len(self.body) if size is None or size < 0 else size
        b = self.body[:n]
        self.body = self.body[n:]
        return b

    def close(self):
        pass

    def getcode(self):
        return self.code

    def info(self):
        return self.headers


def printable(b):
    h.assume(h.and_(*[h.and_(ord(c) > 0x20, ord(c) < 0x7f) for c in b]))
    return b


def http(kind, n):
    """requests and answers"""
    seen = []
    body = h.bytes('body', min(n, 4)) + 'b' * (n - 4)
    x = printable(h.bytes('header', 2))
    code = h.choice('code', [200, 201, 202, 206])
    msg = printable(h.bytes('msg', 2))
    ct = h.choice('type', ['application/llsd+xml', 'text/html; charset=utf-8'])

    def f(request, *a, **k):
        seen.append(request)
        return Result(code, body, {'content-type': ct, 'x-thing': x}, msg)
    h.patch_lib('urllib2', 'urlopen', f)
    hd = h.choice('headers', ['none', 'some'])
    headers = {} if hd == 'none' else {'X-thing': x, 'Content-type': 'application/llsd+xml'}
    data = h.bytes('data', h.choice('size', [0, 3]))
    c = StdLibClient()
    for k in range(2):
        if kind == 'GET':
            r = c.GET(URL) if hd == 'none' else c.GET(URL, headers=headers)
        else:
            r = c.POST(URL, data) if hd == 'none' else c.POST(URL, data, headers=headers)
        h.check(len(seen) == k + 1, 'one request is made')
        q = seen[-1]
        h.check(q.get_full_url() == URL, 'to the url')
        h.check(q.get_method() == kind, 'with its method')
        h.check(h.eq(q.get_data(), None if kind == 'GET' else data), 'and its data')
        h.check(len(q.header_items()) == len(headers), 'and no other headers')
        for name in headers:
            h.check(h.eq(q.get_header(name.capitalize()), headers[name]), 'but each one given')
        h.check(h.eq(r.body, body), 'the body of the answer is kept')
        h.check(r.status_int == code and h.eq(r.status, '%d %s' % (code, msg)), 'its status')
        h.check(h.eq(r.headers['Content-Type'], ct), 'its content type')
        h.check(h.eq(r.headers['X-Thing'], x), 'and its headers')


class Body(object):
    def read(self, *a):
        return 'body'

    readline = read

    def close(self):
        pass


def http_failed(kind):
    """errors of HTTP become the library's own, others pass"""
    code = h.int('code', 100, 999)
    msg = h.bytes('msg', 2)
    fp = Body()
    how = h.choice('error', ['http', 'url', 'other'])
    u = h.lib('urllib2')

    def f(request, *a, **k):
        if how == 'http':
            raise u.HTTPError(URL, code, msg, {}, fp)
        if how == 'url':
            raise u.URLError('x')
        raise Boom('x')
    h.patch_lib('urllib2', 'urlopen', f)
    c = StdLibClient()
    try:
        if kind == 'GET':
            c.GET(URL)
        else:
            c.POST(URL, 'x')
        r = 'value'
    except HTTPError, e:
        r = 'http'
        h.check(e.code == code, 'the error has the code')
        h.check(h.eq(e.msg, msg), 'the message')
        h.check(e.fp is fp, 'and the body of the answer')
    except u.URLError:
        r = 'url'
    except Boom:
        r = 'other'
    h.check(r == how, 'each error is the one that fits')


def hosts():
    """nothing is sent to a host without address or port"""
    ip = h.choice('ip', [None, 0, '10.0.0.1'])
    port = h.choice('port', [None, 0, h.int('p', 1, 65535)])
    d, c = lib_net.dispatcher()
    host = Host((ip, port))
    ok = bool(ip) and port is not None and h.flag(port != 0)
    h.check(host.is_ok() == ok, 'a host needs an address and a port')
    rel = h.choice('reliable', [True, False])
    m = lib_net.ping()
    r = d.send_reliable(m, host, 0) if rel else d.send_message(m, host)
    h.check(len(c.sent) == (1 if ok else 0), 'messages go to usable hosts only')
    h.check((r is not None) == ok and d.packets_out == len(c.sent), 'and are counted then')
    if not ok:
        h.check(d.circuit_manager.get_circuit(host) is None or d.circuit_manager.get_circuit(host).last_packet_out_id == 0, 'no packet id is used up')


def cases(tier):
    out = [('refused', udp_refused), ('long', udp_long), ('socket', udp_socket), ('two clients', udp_two, (2 if tier == 'quick' else 3,)), ('hosts', hosts)]
    for n in list(range(6 if tier == 'quick' else 13)) + [1200, 9000]:
        out.append(('send %d bytes' % n, udp_sent, (n,)))
    for n, size in ((1, 5), (2, 2), (3, 1)):
        out.append(('%d receptions' % n, udp_received, (n, size)))
    for k in ('GET', 'POST'):
        for n in (0, 1, 4, 70000):
            out.append(('%s answer of %d bytes' % (k, n), http, (k, n)))
        out.append(('%s failed' % k, http_failed, (k,)))
    return out
