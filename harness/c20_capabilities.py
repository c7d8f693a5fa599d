"""C20: a capability call ends in the parsed answer or in the error that fits; requests carry what the caller gave."""
import h
import lib_http
from pyogp.lib.base.caps import Capability
from pyogp.lib.base.settings import Settings
from pyogp.lib.base.exc import ResourceNotFound, ResourceError, DeserializerNotFound, DeserializationFailed

INFO = dict(
    bounds='GET, POST and POST_CUSTOM; every HTTP status code; urls of 1 and 3 characters and 12 others; content types: every text of up to 22 characters around the accepted ones, '
           'with arbitrary parameters; answers and payloads with arbitrary integers, texts, booleans, lists and maps; three header sets; '
           'pairs of requests on one and on two capabilities; quiet, default and spammy logging',
    outside='HTTP itself (the REST client is a stand-in); LLSD reading and writing of llbase is taken as correct; header names in other case; '
            'text/html answers with line breaks inside the document',
    stubs='the REST client plays the answers and records the requests; llbase.llsd: parsing a written document yields its value',
)
URL = 'http://127.0.0.1/cap/1'
LLSD = 'application/llsd+xml'


class Other(Exception):
    pass


def settings():
    k = h.choice('logging', ['quiet', 'default', 'spammy'])
    return Settings(quiet_logging=k == 'quiet', spammy_logging=k == 'spammy')


def call(cap, kind, payload, headers):
    if kind == 'GET':
        if headers is None:
            return cap.GET()
        return cap.GET(headers)
    if kind == 'POST':
        if headers is None:
            return cap.POST(payload)
        return cap.POST(payload, headers)
    return cap.POST_CUSTOM(headers or {}, payload)


def outcome(cap, kind, payload, headers=None):
    try:
        return 'value', call(cap, kind, payload, headers)
    except ResourceNotFound, e:
        return 'not found', e
    except ResourceError, e:
        return 'error', e
    except DeserializerNotFound, e:
        return 'no deserializer', e
    except DeserializationFailed, e:
        return 'bad answer', e


def value():
    k = h.choice('value', ['map', 'array', 'nested', 'empty map', 'text'])
    if k == 'map':
        return {'a': h.int('v', -0x80000000, 0x7fffffff), 'b': h.bytes('s', 2)}
    if k == 'array':
        return [h.int('v', -0x80000000, 0x7fffffff), h.flag(h.bool('b'))]
    if k == 'nested':
        return {'a': {'b': [h.int('v', 0, 255), {}]}}
    if k == 'empty map':
        return {}
    return 'text'


def ascii(b):
    h.assume(h.and_(*[h.and_(ord(c) >= 0x20, ord(c) < 0x7f) for c in b]))
    return b


def safe(v):
    """keep text printable and free of markup"""
    if isinstance(v, dict) and 'b' in v and not isinstance(v['b'], (dict, list)):
        ascii(v['b'])
        h.assume(h.and_(*[h.and_(c != '<', c != '&', c != '>', c != ' ') for c in v['b']]))
    return v


def accepted(kind, ct, doc):
    """is a reply of this content type LLSD?"""
    main = ct
    ok = [main == LLSD]
    if kind != 'GET':
        ok.append(main == 'application/xml')
        if doc:
            ok.append(main == 'text/html')
    return h.or_(*ok)


def answered(kind):
    """a successful answer is parsed"""
    v = safe(value())
    ct = h.choice('type', [LLSD] if kind == 'GET' else [LLSD, 'application/xml', 'text/html'])
    tail = h.choice('tail', ['', ';charset=utf-8', '; charset=UTF-8; x=y'])
    rest = lib_http.Rest([lib_http.Response(ct + tail, h.llsd_doc(v))])
    cap = Capability('c', URL, rest, settings())
    out, got = outcome(cap, kind, {'q': 1}, {})
    h.check(out == 'value', 'an LLSD answer is accepted')
    h.check(h.eq(got, v), 'and parsed')
    h.check(len(rest.calls) == 1 and rest.calls[0][0] == kind[:4].rstrip('_'), 'one request is made')
    h.check(rest.calls[0][1] == URL, 'to the url of the capability')


URLS = ['http://a', 'http://a/', 'http://a/b/', 'HTTPS://A/B//', 'http://a/b?x=1&y=%20#z', 'http://a/b c', '', '/', ' http://a ', 'http://a/?', u'http://a/\xe9', 'http://a/x;y=1']


def urls(kind, n):
    """any url"""
    url = ascii(h.bytes('url', n)) if n else h.choice('url', URLS)
    good = h.choice('answer', ['good', 'not found', 'error'])
    rest = lib_http.Rest([lib_http.Response(LLSD, h.llsd_doc({'a': 1})) if good == 'good' else ('fail', 404 if good == 'not found' else 500, 'x', 'y')])
    out, e = outcome(Capability('c', url, rest, settings()), kind, {}, {})
    h.check(len(rest.calls) == 1 and h.flag(h.eq(rest.calls[0][1], url)), 'the url is used as it is')
    h.check(out == ('value' if good == 'good' else good), 'with the outcome it has')
    if good != 'good':
        h.check(h.eq(e.url, url), 'and named as it is')


def types(kind, base, n):
    """arbitrary content types"""
    if base is None:
        ct = ascii(h.bytes('type', n))
    else:
        pos = h.int('at', 0, len(base))
        pos = h.realise(pos)
        ct = base[:pos] + ascii(h.bytes('type', n)) + base[pos + h.realise(h.int('skip', 0, n)):]
    doc = h.choice('doc', [True, False])
    body = h.llsd_doc({'a': 1})
    if not doc:
        body = h.choice('body', ['', '<html></html>', ' <?xml version="1.0" ?><llsd><undef /></llsd>', 'x', '<llsd></llsd>'])
    rest = lib_http.Rest([lib_http.Response(ct, body)])
    cap = Capability('c', URL, rest, Settings(quiet_logging=True))
    out, got = outcome(cap, kind, {}, {})
    main = ct
    for k in range(len(ct)):
        if ct[k] == ';':
            main = ct[:k]
            break
    yes = h.flag(accepted(kind, main, doc))
    if yes and doc:
        h.check(out == 'value', 'accepted types are parsed')
        h.check(got == {'a': 1}, 'with their value')
    elif yes:
        h.check(out in ('bad answer', 'value'), 'an answer that is not LLSD is refused')
        h.check(out == 'bad answer' or body[:1] == ' ', 'and invents no value')
    else:
        h.check(out == 'no deserializer', 'any other content type is refused')
        h.check(got.content_type == main, 'naming the content type')


def malformed(kind):
    """answers that claim to be LLSD and are not"""
    body = h.choice('body', ['<llsd></llsd>', '<llsd><integer>abc</integer></llsd>', '<llsd><map><key>a</key></map></llsd>', '<llsd><foo /></llsd>',
                             '<llsd><integer>1</llsd>', '<llsd><uuid>zz</uuid></llsd>', '<llsd>', '<', ' ', '', 'x', '<?xml version="1.0" ?><llsd />',
                             '<html><body>502</body></html>', 'Bad gateway', 'x' * 100])
    ct = h.choice('type', [LLSD] if kind == 'GET' else [LLSD, 'application/xml'])
    rest = lib_http.Rest([lib_http.Response(ct, body)])
    cap = Capability('c', URL, rest, settings())
    out, e = outcome(cap, kind, {}, {})
    h.check(out == 'bad answer', 'an answer that is not LLSD is a failed deserialization')
    h.check(e.payload == body, 'which names the answer')


def falsy(kind):
    """falsy values are values"""
    v = h.choice('value', [0, 0.0, False, None, '', [], {}])
    rest = lib_http.Rest([lib_http.Response(LLSD, h.llsd_doc(v))])
    out, got = outcome(Capability('c', URL, rest, settings()), kind, {}, {})
    h.check(out == 'value' and h.eq(got, v) and h.typename(got) == h.typename(v), 'falsy values are values')


def failed(kind):
    """HTTP errors"""
    code = h.int('code', 100, 999)
    msg = ascii(h.bytes('msg', 3))
    body = h.bytes('body', 3)
    rest = lib_http.Rest([('fail', code, msg, body)])
    cap = Capability('c', URL, rest, settings())
    out, e = outcome(cap, kind, {}, {})
    if h.flag(code == 404):
        h.check(out == 'not found', '404 means not found')
        h.check(e.url == URL, 'and names the url')
    else:
        h.check(out == 'error', 'any other HTTP error is a resource error')
        h.check(e.url == URL, 'the error names the url')
        h.check(e.code == code, 'the code')
        h.check(h.eq(e.message, msg), 'the message')
        h.check(h.eq(e.body, body), 'the body')
        h.check(e.method == kind[:4].rstrip('_'), 'and the method')
    h.check(len(rest.calls) == 1, 'nothing is tried again')


def other(kind):
    """errors that are not HTTP errors reach the caller"""
    rest = lib_http.Rest([Other('x')])
    cap = Capability('c', URL, rest, settings())
    try:
        outcome(cap, kind, {}, {})
        out = 'none'
    except Other:
        out = 'other'
    h.check(out == 'other', 'other errors reach the caller')


def custom():
    k = h.choice('headers', ['none', 'other', 'type', 'both'])
    r = {}
    if k in ('other', 'both'):
        r['X-Thing'] = ascii(h.bytes('x', 2))
    if k in ('type', 'both'):
        r['Content-type'] = ascii(h.bytes('t', 3))
    return r


def requests(kind):
    """two requests: each carries exactly its own headers and payload"""
    same = h.choice('same capability', [True, False])
    rest = lib_http.Rest([lib_http.Response(LLSD, h.llsd_doc({'n': n})) for n in range(2)])
    s = settings()
    caps = [Capability('c', URL, rest, s)]
    caps.append(caps[0] if same else Capability('d', URL + 'd', rest, s))
    for k in range(2):
        hd = custom()
        pl = h.choice('payload', [{'a': h.int('v', -0x80000000, 0x7fffffff)}, [h.int('w', 0, 255)]])
        give = h.choice('give', ['headers', 'default']) if not hd else 'headers'
        before = dict(hd)
        out, got = outcome(caps[k], kind, pl, hd if give == 'headers' else None)
        h.check(out == 'value' and h.eq(got, {'n': k}), 'each request has its own answer')
        h.check(h.eq(hd, before), "the caller's headers are left alone")
        want = dict(hd)
        if kind == 'POST':
            want = {'Content-type': LLSD}
            want.update(hd)
        meth, url, data, sent = rest.calls[-1]
        h.check(len(rest.calls) == k + 1, 'one request per call')
        h.check(url == caps[k].public_url, 'to the url of its capability')
        h.check(h.eq(sent, want), 'with its own headers')
        if kind == 'POST':
            h.check(h.eq(parse(data), pl), 'and its own payload, as LLSD')
        if kind == 'POST_CUSTOM':
            h.check(h.eq(data, pl), 'and its own payload, as it is')


def parse(doc):
    return h.lib('llbase.llsd').parse(doc)


def payloads():
    """only lists and maps can be posted"""
    pl = h.choice('payload', ['text', u'text', 3, 3.5, None, True, (1, 2), [], {}, [1], {'a': 1}])
    rest = lib_http.Rest([lib_http.Response(LLSD, h.llsd_doc({}))])
    cap = Capability('c', URL, rest, settings())
    out, e = outcome(cap, 'POST', pl)
    if isinstance(pl, (list, dict)):
        h.check(out == 'value', 'lists and maps are posted')
    else:
        h.check(out == 'no deserializer', 'other payloads are refused')
        h.check(rest.calls == [], 'and nothing is sent')


def cases(tier):
    out = []
    for k in ('GET', 'POST', 'POST_CUSTOM'):
        out.append(('%s answered' % k, answered, (k,)))
        out.append(('%s failed' % k, failed, (k,)))
        for n in (0, 1, 3):
            out.append(('%s url of %d' % (k, n), urls, (k, n)))
        out.append(('%s malformed' % k, malformed, (k,)))
        out.append(('%s falsy' % k, falsy, (k,)))
        out.append(('%s other error' % k, other, (k,)))
        out.append(('%s requests' % k, requests, (k,)))
        for n in ((0, 1, 9) if tier == 'quick' else (0, 1, 2, 9, 15, 20, 21)):
            out.append(('%s any type of %d' % (k, n), types, (k, None, n)))
        for b in (LLSD, 'application/xml', 'text/html'):
            for n in ((1,) if tier == 'quick' else (1, 2)):
                out.append(('%s %s with %d changed' % (k, b, n), types, (k, b, n)))
    return out + [('payloads', payloads)]
