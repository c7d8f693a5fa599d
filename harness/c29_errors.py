"""C29: errors keep their details, can be caught by their family, and can be shown; so can the components."""
import h
import lib_net
import lib_http
from pyogp.lib.base import exc
from pyogp.lib.base.caps import Capability, SeedCapability
from pyogp.lib.base.settings import Settings
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.network.net import NetUDPClient

INFO = dict(
    bounds='every error class with details, each detail an arbitrary text of up to 3 bytes, an arbitrary number, none, or left out; raised and caught '
           'as itself and as each of its bases; names and urls of up to 3 arbitrary bytes for the display of components',
    outside='texts that are not byte strings; the wording around the details',
    stubs='none',
)
# class: (family, [(argument, default or required, shown)])
R = object()
ERRORS = {
    'LoginError': ('Error', [('error', R, True)]),
    'ParseStartLocError': ('LoginError', [('error', R, False)]),
    'HTTPError': ('NetworkError', [('code', R, True), ('msg', R, True), ('fp', R, False), ('details', '', False)]),
    'ResourceNotFound': ('NetworkError', [('url', '', True)]),
    'ResourceError': ('NetworkError', [('url', '', True), ('code', '', True), ('message', '', True), ('body', '', False), ('method', 'GET', True)]),
    'DeserializerNotFound': ('DeserializationError', [('content_type', '', True)]),
    'CredentialDeserializerNotFound': ('DeserializationError', [('payload', '', True)]),
    'DeserializationFailed': ('DeserializationError', [('payload', '', True), ('reason', '', True)]),
    'MessageTemplateNotFound': ('MessageSystemError', [('context', '', True), ('template', '', False)]),
    'MessageTemplateParsingError': ('MessageSystemError', [('context', '', True), ('template', '', False)]),
    'CircuitNotFound': ('MessageSystemError', [('host', '', True), ('reason', '', True)]),
    'MessageBuildingError': ('MessageSystemError', [('label', '', True), ('reason', '', True)]),
    'MessageSerializationError': ('MessageSystemError', [('label', '', True), ('reason', '', True)]),
    'MessageDeserializationError': ('MessageSystemError', [('label', '', True), ('reason', '', True)]),
    'DataUnpackingError': ('MessageSystemError', [('data', '', True), ('reason', '', True)]),
    'UserNotFound': ('AgentDomainError', [('credentials', None, False)]),
    'UserNotAuthorized': ('AgentDomainError', [('credentials', None, False)]),
    'UserRezFailed': ('AgentDomainError', [('region', None, False)]),
    'RegionSeedCapNotAvailable': ('RegionDomainError', [('reason', None, True)]),
    'RegionCapNotAvailable': ('RegionDomainError', [('cap', None, False)]),
    'RegionMessageError': ('RegionDomainError', [('region', None, True)]),
    'DataParsingError': ('Error', [('error', None, True)]),
    'NotImplemented': ('Error', [('error', None, True)]),
    'Deprecated': ('Error', [('thing', None, True)]),
}
FAMILIES = {'AgentError': 'Error', 'NetworkError': 'Error', 'SerializationError': 'Error', 'DeserializationError': 'Error',
            'MessageSystemError': 'Error', 'AgentDomainError': 'Error', 'RegionDomainError': 'Error', 'LoginError': 'Error'}


def families(name):
    out = []
    f = ERRORS[name][0]
    while f != 'Error':
        out.append(f)
        f = FAMILIES[f]
    return out + ['Error']


def contains(text, part):
    return h.or_(*[h.eq(text[k:k + len(part)], part) for k in range(len(text) - len(part) + 1)])


def detail(n, short=False):
    kind = h.choice('kind', ['text', 'empty'] if short else ['text', 'empty', 'number'])
    if kind == 'text':
        return h.bytes(n, 3)
    return {'empty': '', 'number': 404}[kind]


def error(name):
    family, args = ERRORS[name]
    cls = getattr(exc, name)
    given = h.choice('given', range(len([a for a in args if a[1] is R]), len(args) + 1))
    by_name = h.choice('by name', [False, True])
    vals = [detail(a[0], name == 'ResourceNotFound' or len(args) > 3) for a in args[:given]]
    if by_name:
        kw = {}
        for a, v in zip(args, vals):
            kw[a[0]] = v
        e = cls(**kw)
    else:
        e = cls(*vals)
    vals = vals + [a[1] for a in args[given:]]
    for a, v in zip(args, vals):
        h.check(h.eq(getattr(e, a[0]), v), 'an error keeps its details')
    s = str(e)
    h.check(h.typename(s) == 'str', 'an error can be shown')
    for a, v in zip(args, vals):
        if a[2] and v != '':
            h.check(contains(s, v if h.typename(v) == 'str' else str(v)), 'showing what it is about')
    fams = families(name)
    for f in fams + [name]:
        try:
            raise e
        except getattr(exc, f), x:
            h.check(x is e, 'it is caught by its family')
    other = [f for f in sorted(FAMILIES) + sorted(ERRORS) if f not in fams and f != name]
    for f in other:
        h.check(not isinstance(e, getattr(exc, f)), 'and by no other')
    if h.typename(vals[0]) == 'str':
        two = cls(*['x'] * max(given, 1))
        h.check(h.eq(getattr(e, args[0][0]), vals[0]) and getattr(two, args[0][0]) == 'x', 'errors do not share details')


def plain(name):
    e = getattr(exc, name)('text')
    h.check(isinstance(e, exc.Error) and isinstance(e, Exception), 'families are errors of the library')
    h.check(str(e) == 'text' or name == 'LoginError', 'and can be shown')


def capabilities():
    n, u = h.bytes('name', 3), h.bytes('url', 3)
    st = Settings(quiet_logging=True)
    c = Capability(n, u, None, st)
    h.check(h.and_(contains(repr(c), n), contains(repr(c), u)), 'a capability shows its name and url')
    s = SeedCapability(n, u, None, st)
    h.check(contains(repr(s), u), 'a seed capability shows its url')


def network():
    p = h.choice('port', [0, 9000, 65535])
    c = NetUDPClient()
    h.check(h.typename(repr(c)) == 'str', 'a UDP client can be shown')
    c.sender = Host(('10.0.0.1', p))
    h.check('10.0.0.1' in repr(c) and str(p) in repr(c), 'with its sender')
    host = Host(('10.1.2.3', p))
    h.check('10.1.2.3' in str(host) and str(p) in str(host), 'a host can be shown')
    h.check('10.1.2.3' in repr(host) and str(p) in repr(host), 'in both ways')
    d, u = lib_net.dispatcher()
    u.sender = host
    h.check('10.1.2.3' in repr(d), 'a dispatcher can be shown')


def cases(tier):
    return ([('error ' + n, error, (n,)) for n in sorted(ERRORS)] + [('family ' + n, plain, (n,)) for n in sorted(FAMILIES)] +
            [('capabilities', capabilities), ('network', network)])
