"""C07: message.xml decides which messages may travel over UDP, in both directions."""
import h
import lib_ref
from llbase import llsd
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message.data import msg_details
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='every message of the template against the embedded message.xml; custom message.xml files with every assignment of flavors '
           '(template, llsd, absent) to three messages, one open message.xml file given to two managers, two message.xml side by side; any flavor text of 1, 4 and 7 to 9 characters for one; every name of 14 characters; deferred parsing on and off; plain packets, packets with acks, zero-coded and resent ones',
    outside='entries of message.xml without a flavor (four, none of them a UDP message)',
    stubs='message.xml is parsed by an engine model of llbase; the UDP client is a stand-in that records what is sent',
)

S = {}


class Client(object):
    def __init__(self):
        self.sent = []

    def start_udp_connection(self):
        return 'socket'

    def send_packet(self, sock, buf, host):
        if buf is None:
            raise Exception('No data specified')
        self.sent.append(buf)


def setup():
    st = Settings(quiet_logging=True)
    S['st'] = st
    S['xml'] = MessageDotXML()
    x = llsd.parse(msg_details)['messages']
    S['flavor'] = dict([(n, x[n].get('flavor')) for n in x])
    S['ser'] = UDPMessageSerializer()
    S['des'] = UDPMessageDeserializer(lib_ref.AllHandled(), st)
    S['client'] = Client()
    S['all'] = lib_ref.AllHandled()
    S['disp'] = UDPDispatcher(S['client'], st, S['all'])


def embedded(entry):
    g = lib_ref.Gen(entry, 1, 1)
    allowed = S['flavor'].get(entry[0], 'template') == 'template'
    h.check(S['xml'].validate_udp_msg(entry[0]) == allowed, 'the flavor decides')
    g.msg.packet_id = 3
    buf = S['ser'].serialize(g.msg)
    h.check((buf is not None) == allowed, 'exactly template messages are serialized')
    m = S['des'].deserialize('\0\0\0\0\x01\0' + lib_ref.id_bytes(entry[1], entry[2]) + g.wire)
    h.check((m is not None) == (allowed and len(entry[3]) >= 0), 'exactly template messages are decoded')


def dispatched(entry):
    c = S['client']
    c.sent = []
    S['all'].got = []
    d = S['disp']
    g = lib_ref.Gen(entry, 1, 1)
    allowed = S['flavor'].get(entry[0], 'template') == 'template'
    host = Host(('127.0.0.1', 9))
    d.circuit_manager.remove_circuit_data(host)
    rel = h.choice('reliable', [False, True])
    if rel:
        d.send_reliable(g.msg, host, 0)
    else:
        d.send_message(g.msg, host)
    h.check(len(c.sent) == (1 if allowed else 0), 'exactly template messages leave through the dispatcher')
    p = '\0\0\0\x01\0' + lib_ref.id_bytes(entry[1], entry[2]) + g.wire
    p = '\x50' + p + h.bytes('ack', 4) + '\x01' if h.choice('acks', [True, False]) else '\x40' + p
    d.receive_check(host, p, len(p))
    h.check(len(S['all'].got) == (1 if allowed else 0), 'exactly template messages are handed to the handlers')
    if allowed:
        h.check(S['all'].got[0].name == entry[0], 'as themselves')


THREE = ('StartPingCheck', 'CompletePingCheck', 'CloseCircuit')


def document(flavors, extra={}):
    ms = {}
    for n, f in zip(THREE, flavors):
        if f is not None:
            ms[n] = dict([('flavor', f), ('trusted-sender', False)] + extra.items())
    return llsd.format_xml({'serverDefaults': {}, 'messages': ms, 'capBans': {}, 'maxQueuedEvents': 100, 'messageBans': {}})


def make(n):
    if n == 'StartPingCheck':
        return Message(n, Block('PingID', PingID=1, OldestUnacked=2)), '\x01\x01\2\0\0\0'
    if n == 'CompletePingCheck':
        return Message(n, Block('PingID', PingID=1)), '\x02\x01'
    return Message(n), '\xff\xff\xff\xfd'


def with_flags(wire, kind):
    if kind == 'with acks':
        return '\x10\0\0\0\x01\0' + wire + '\0\0\0\x07\x01'
    if kind == 'zero-coded':
        return '\x80\0\0\0\x01\0' + wire.replace('\0\0\0', '\0\x03')
    return ('\x60' if kind == 'resent' else '\0') + '\0\0\0\x01\0' + wire


def custom(way):
    fl = [h.choice('flavor of ' + n, ['template', 'llsd', None]) for n in THREE]
    deferred = h.choice('deferred', [True, False])
    st = Settings(quiet_logging=True)
    st.ENABLE_DEFERRED_PACKET_PARSING = deferred
    text = document(fl, h.choice('other keys', [{}, {'builder': 'llsd'}, {'builder': 'template', 'trusted-sender': True}]))
    host = Host(('127.0.0.1', 9))
    hd = MessageHandler(st)
    got = []
    for n in THREE:
        hd.register(n).subscribe(lambda m: got.append(m.name))
    c = Client()
    if way == 'dispatcher':
        d = UDPDispatcher(c, st, hd, message_template=small(), message_xml=MessageDotXML(message_xml=text))
    else:
        sock = Sock(c)
        h.patch_lib('socket', 'socket', lambda *a: sock)
        d = MessageManager(host, hd, settings=st, message_template=small(), message_xml=h.templfile(text)).udp_dispatcher
    k = h.choice('packets', ['plain', 'with acks', 'zero-coded', 'resent'])
    for n, f in zip(THREE, fl):
        m, wire = make(n)
        c.sent = []
        del got[:]
        d.send_message(m, host)
        h.check(len(c.sent) == (0 if f == 'llsd' else 1), 'a custom message.xml decides what is sent')
        p = with_flags(wire, k)
        d.receive_check(host, p, len(p))
        h.check(got == ([] if f == 'llsd' else [n]), 'a custom message.xml decides what is received')
    h.observe('flavors', fl)


def again():
    """two managers (two regions) that are configured with the same open files"""
    fl = [h.choice('flavor of ' + n, ['template', 'llsd', None]) for n in THREE]
    st = Settings(quiet_logging=True)
    st.ENABLE_DEFERRED_PACKET_PARSING = h.choice('deferred', [True, False])
    xml, tmpl = h.templfile(document(fl)), small()
    for k in range(2):
        c = Client()
        sock = Sock(c)
        h.patch_lib('socket', 'socket', lambda *a: sock)
        host = Host(('127.0.0.1', 9 + k))
        hd = MessageHandler(st)
        got = []
        for n in THREE:
            hd.register(n).subscribe(lambda m: got.append(m.name))
        d = MessageManager(host, hd, settings=st, message_template=tmpl, message_xml=xml).udp_dispatcher
        for n, f in zip(THREE, fl):
            m, wire = make(n)
            c.sent = []
            del got[:]
            d.send_message(m, host)
            h.check(len(c.sent) == (0 if f == 'llsd' else 1), 'a message.xml file decides for every manager it is given to what is sent')
            p = '\0\0\0\0\x01\0' + wire
            d.receive_check(host, p, len(p))
            h.check(got == ([] if f == 'llsd' else [n]), 'and what is received')


def pair():
    """two message.xml side by side, of the same length at times"""
    fl = [[h.choice('flavor of ' + n, ['template', 'llsdllsd', None]) for n in THREE[:2]] for k in range(2)]
    st = Settings(quiet_logging=True)
    st.ENABLE_DEFERRED_PACKET_PARSING = False
    made = []
    for k in range(2):
        c, hd, got = Client(), MessageHandler(st), []
        for n in THREE:
            hd.register(n).subscribe(got.append)
        made.append((c, got, UDPDispatcher(c, st, hd, message_template=small(), message_xml=MessageDotXML(message_xml=document(fl[k])))))
    host = Host(('127.0.0.1', 9))
    for c, got, d in made[::-1]:
        for n, f in zip(THREE, fl[made.index((c, got, d))]):
            m, wire = make(n)
            c.sent = []
            del got[:]
            d.send_message(m, host)
            h.check(len(c.sent) == (0 if f == 'llsdllsd' else 1), 'each message.xml decides for its own dispatcher what is sent')
            p = '\0\0\0\0\x01\0' + wire
            d.receive_check(host, p, len(p))
            h.check(len(got) == (0 if f == 'llsdllsd' else 1), 'and what is received')


def flavored(n):
    """any text as a flavor"""
    fl = h.bytes('flavor', n) if n >= 0 else h.choice('flavor', ['templat', 'templates', 'Template', ' template', 'template ', 'TEMPLATE', 'llsd', 'true', '', u'template'])
    for c in fl:
        h.assume(h.and_(ord(c) >= 0x20, ord(c) < 0x7f, c != '<', c != '&', c != '>'))
    # an absent text is read as an empty one
    doc = h.llsd_doc({'serverDefaults': {}, 'messages': {'StartPingCheck': {'flavor': fl, 'trusted-sender': False}, 'Other': {'flavor': 'template'}},
                      'capBans': {}, 'maxQueuedEvents': 100, 'messageBans': {}})
    st = Settings(quiet_logging=True)
    st.ENABLE_DEFERRED_PACKET_PARSING = h.choice('deferred', [True, False])
    hd = MessageHandler(st)
    got = []
    hd.register('StartPingCheck').subscribe(got.append)
    hd.register('CompletePingCheck').subscribe(got.append)
    c = Client()
    x = MessageDotXML(message_xml=doc)
    d = UDPDispatcher(c, st, hd, message_template=small(), message_xml=x)
    host = Host(('127.0.0.1', 9))
    allowed = h.flag(h.eq(fl, 'template'))
    h.check(x.validate_udp_msg('StartPingCheck') == allowed, 'only the template flavor is allowed')
    h.check(x.validate_udp_msg('Other') and x.validate_udp_msg('CompletePingCheck'), 'others do not matter')
    m, wire = make('StartPingCheck')
    d.send_message(m, host)
    h.check(len(c.sent) == (1 if allowed else 0), 'any other flavor keeps a message from being sent')
    p = '\0\0\0\0\x01\0' + wire
    d.receive_check(host, p, len(p))
    h.check(len(got) == (1 if allowed else 0), 'and from being received')
    m, wire = make('CompletePingCheck')
    d.send_message(m, host)
    h.check(len(c.sent) == (2 if allowed else 1), 'a message that is not named may be sent')


class Sock(object):
    def __init__(self, client):
        self.client = client

    def sendto(self, buf, addr):
        self.client.sent.append(buf)
        return len(buf)


def small():
    """a template with the three messages"""
    return h.templfile('''version 2.0
{
	StartPingCheck High 1 NotTrusted Unencoded
	{
		PingID Single
		{ PingID U8 }
		{ OldestUnacked U32 }
	}
}
{
	CompletePingCheck High 2 NotTrusted Unencoded
	{
		PingID Single
		{ PingID U8 }
	}
}
{
	CloseCircuit Fixed 0xFFFFFFFD NotTrusted Unencoded
}
''')


def names():
    n = h.bytes('name', 14)
    r = S['xml'].validate_udp_msg(n)
    bad = []
    for k in S['flavor']:
        f = S['flavor'][k]
        if f is None:
            h.assume(n != k)
        elif f != 'template':
            bad.append(n == k)
    h.check(r == h.not_(h.or_(*bad)), 'only names with another flavor are refused')
    x = MessageDotXML(message_xml=document(['llsd', 'template', None]))
    h.check([x.validate_udp_msg(t) for t in THREE] == [False, True, True], 'a custom document replaces the embedded one')
    h.check(S['xml'].validate_udp_msg('StartPingCheck'), 'and leaves other instances alone')


def cases(tier):
    out = [('custom xml, dispatcher', custom, ('dispatcher',)), ('custom xml file, manager', custom, ('manager',)), ('names', names),
           ('custom xml file, two managers', again), ('two custom xml', pair)]
    out += [('flavor of %d' % n if n >= 0 else 'flavors', flavored, (n,)) for n in (-1, 1, 4, 7, 8, 9)]
    for e in lib_ref.ENTRIES:
        out.append(('embedded %s' % e[0], embedded, (e,)))
        out.append(('dispatched %s' % e[0], dispatched, (e,)))
    return out
