"""C21: a seed capability yields exactly the capabilities asked for, each with its own url."""
import h
import lib_http
from pyogp.lib.base.caps import SeedCapability, Capability
from pyogp.lib.base.settings import Settings
from pyogp.lib.base.exc import ResourceNotFound, ResourceError, DeserializerNotFound

INFO = dict(
    bounds='0 to 3 (quick) or 5 (thorough) names asked for, in any order and with repeats, out of an answer that grants these and others, with arbitrary '
           'urls; two seeds in a row; names of any one-letter text among a-d, and eleven odd ones (not ascii, long, markup); each HTTP failure; then a call of each capability; 30, 101 and 300 names',
    outside='HTTP itself (the REST client is a stand-in); an answer that lacks a name asked for (the code raises KeyError)',
    stubs='the REST client plays the answers and records the requests; llbase.llsd: parsing a written document yields its value',
)
URL = 'http://127.0.0.1/seed'
LLSD = 'application/llsd+xml'
NAMES = ['EventQueueGet', 'UpdateAgent', 'seed', 'MapLayer', '']
ODD = [u'Caf\xe9', u'\u20ac', 'a' * 100, 'a' * 99 + 'b', ' a ', 'A', 'a', 'a/b?c=d&e', 'capabilities', '<>', u'a\nb']


def doc(data):
    return h.lib('llbase.llsd').parse(data)


def urls(n):
    return dict([(x, 'http://10.0.0.%d/' % k + h.bytes('url', 3)) for k, x in enumerate(NAMES[:n])])


def printable(d):
    for v in d.values():
        h.assume(h.and_(*[h.and_(ord(c) > 0x20, ord(c) < 0x7f, c != '<', c != '&', c != '>') for c in v[-3:]]))
    return d


def seed(answers, settings=None, n=0):
    rest = lib_http.Rest(answers)
    return SeedCapability('seed', URL + str(n), rest, settings or Settings(quiet_logging=True)), rest


def granted(n, extra):
    """the capabilities that were asked for"""
    u = printable(urls(n + extra if n + extra < len(NAMES) else len(NAMES)))
    s = Settings(quiet_logging=h.choice('quiet', [True, False]))
    names = [h.choice('name', sorted(u)) for k in range(n)]
    cap, rest = seed([lib_http.Response(LLSD, h.llsd_doc({'capabilities': u}))], s)
    asked = list(names)
    caps = cap.get(names)
    h.check(names == asked, 'the list of names is left alone')
    h.check(len(rest.calls) == 1, 'one request is made')
    meth, url, data, headers = rest.calls[0]
    h.check(meth == 'POST' and url == URL + '0', 'to the seed')
    h.check(doc(data) == {'capabilities': asked}, 'asking for exactly the names given')
    h.check(headers == {'Content-type': LLSD}, 'as LLSD')
    h.check(sorted(caps.keys()) == sorted(set(asked)), 'exactly the names asked for are returned')
    for x in asked:
        c = caps[x]
        h.check(isinstance(c, Capability), 'as capabilities')
        h.check(c.name == x, 'each with its name')
        h.check(h.eq(c.public_url, u[x]), 'each with its url')
        h.check(c.restclient is rest, 'the REST client of the seed')
        h.check(c.settings is s, 'and the settings of the seed')
        rest.answers.append(lib_http.Response(LLSD, h.llsd_doc({})))
        c.GET()
        h.check(h.eq(rest.calls[-1][1], u[x]), 'and a call goes to that url')


def default():
    """no names: nothing is asked for"""
    cap, rest = seed([lib_http.Response(LLSD, h.llsd_doc({'capabilities': {'a': 'b'}})), lib_http.Response(LLSD, h.llsd_doc({'capabilities': {'a': 'b'}}))])
    h.check(cap.get(['a']).keys() == ['a'], 'the name asked for')
    h.check(cap.get() == {}, 'no names give no capabilities')
    h.check(doc(rest.calls[1][2]) == {'capabilities': []}, 'no names are asked for')


def twice():
    """two seeds do not mix"""
    a, b = printable(urls(2)), printable(urls(2))
    one, r1 = seed([lib_http.Response(LLSD, h.llsd_doc({'capabilities': a}))])
    two, r2 = seed([lib_http.Response(LLSD, h.llsd_doc({'capabilities': b}))], None, 1)
    names = NAMES[:2]
    c1 = one.get(names)
    c2 = two.get([names[0]])
    h.check(sorted(c1.keys()) == sorted(names) and c2.keys() == [names[0]], 'each seed has its own answer')
    for x in names:
        h.check(h.eq(c1[x].public_url, a[x]), 'the first answer keeps its urls')
        h.check(c1[x].restclient is r1, 'and its client')
    h.check(h.eq(c2[names[0]].public_url, b[names[0]]), 'the second has its own')
    h.check(c2[names[0]].restclient is r2, 'and its own client')
    h.check(r2.calls[0][1] == URL + '1', 'and its own seed url')


def again():
    """asking the same seed again gives the new urls"""
    a, b = printable(urls(2)), printable(urls(2))
    cap, rest = seed([lib_http.Response(LLSD, h.llsd_doc({'capabilities': x})) for x in (a, b)])
    names = NAMES[:2]
    c1 = cap.get(names)
    c2 = cap.get(names[1:])
    h.check(c2.keys() == names[1:], 'the second answer holds what was asked for the second time')
    h.check(h.eq(c2[names[1]].public_url, b[names[1]]), 'with its new url')
    h.check(h.eq(c1[names[1]].public_url, a[names[1]]), 'the first keeps the old one')


def failing():
    """an error of the request reaches the caller"""
    code = h.int('code', 300, 599)
    cap, rest = seed([('fail', code, 'msg', 'body')])
    out = None
    try:
        cap.get(['a'])
        out = 'value'
    except ResourceNotFound, e:
        out = 'not found'
    except ResourceError, e:
        out = 'error'
        h.check(e.code == code, 'with its code')
    h.check(e.url == URL + '0', 'with the url')
    h.check((out == 'not found') == h.flag(code == 404) and out != 'value', 'the error that fits')


def odd(k):
    """names may be any text"""
    u = printable(dict([(x, 'http://10.0.0.1/' + h.bytes('url', 3)) for x in ODD]))
    names = [ODD[k], ODD[(k + 1) % len(ODD)], NAMES[0]]
    u[NAMES[0]] = 'http://10.0.0.2/'
    cap, rest = seed([lib_http.Response(LLSD, h.llsd_doc({'capabilities': u}))])
    caps = cap.get(names)
    h.check(sorted(caps.keys()) == sorted(names), 'exactly the names asked for are returned, whatever they are')
    h.check(doc(rest.calls[0][2]) == {'capabilities': names}, 'asking for exactly the names given, whatever they are')
    for x in names:
        h.check(caps[x].name == x and h.eq(caps[x].public_url, u[x]), 'each with its own url, whatever its name')


def order(n):
    """the names are asked for in the order given, also when they repeat"""
    names = [h.bytes('name', 1) for k in range(n)]
    for x in names:
        h.assume(h.and_(ord(x) >= 0x61, ord(x) <= 0x64))
    u = dict([(c, 'http://10.0.0.1/' + c) for c in 'abcd'])
    cap, rest = seed([lib_http.Response(LLSD, h.llsd_doc({'capabilities': u}))])
    asked = list(names)
    caps = cap.get(names)
    h.check(h.eq(doc(rest.calls[0][2])['capabilities'], asked), 'in the order given')
    for x in asked:
        h.check(h.eq(caps[x].public_url, 'http://10.0.0.1/' + x), 'each url belongs to its name')


def many(n):
    """many names"""
    tail = h.bytes('url', 3)
    u = printable(dict([('Cap%d' % k, 'http://10.0.0.1/%d/' % k + tail) for k in range(n + 5)]))
    names = ['Cap%d' % (7 * k % n) for k in range(n)]
    cap, rest = seed([lib_http.Response(LLSD, h.llsd_doc({'capabilities': u}))])
    caps = cap.get(names)
    h.check(len(rest.calls) == 1 and doc(rest.calls[0][2]) == {'capabilities': names}, 'one request asks for all names, however many')
    h.check(sorted(caps.keys()) == sorted(names), 'and all are returned')
    h.check(h.and_(*[h.eq(caps[x].public_url, u[x]) and caps[x].name == x for x in names]), 'each with its own url, however many')


def cases(tier):
    out = [('odd name %d' % k, odd, (k,)) for k in range(len(ODD))] + [('order of %d' % n, order, (n,)) for n in (2, 3)]
    for n in range(4 if tier == 'quick' else 6):
        for extra in (0, 1):
            if n + extra:
                out.append(('%d names, %d more granted' % (n, extra), granted, (n, extra)))
    out += [('%d names' % n, many, (n,)) for n in (30, 101, 300)]
    return out + [('no names', default), ('two seeds', twice), ('again', again), ('failing', failing)]
