"""Stand-ins and builders for the UDP layer. Shared by several harnesses."""
import h
import lib_ref
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings

TEMPLATE = '''version 2.0
{
	StartPingCheck High 1 NotTrusted Unencoded
	{
		PingID Single
		{ PingID U8 }
		{ OldestUnacked U32 }
	}
}
{
	CompletePingCheck High 2 NotTrusted Unencoded
	{
		PingID Single
		{ PingID U8 }
	}
}
{
	PacketAck Fixed 0xFFFFFFFB NotTrusted Unencoded
	{
		Packets Variable
		{ ID U32 }
	}
}
{
	CloseCircuit Fixed 0xFFFFFFFD NotTrusted Unencoded
}
{
	Blob Low 300 NotTrusted Unencoded
	{
		Part Variable
		{ Data Variable 2 }
	}
}
{
	Trusty Low 301 Trusted Unencoded
	{
		Part Single
		{ Value U32 }
	}
}
'''

XML = {}


class Client(object):
    """a UDP client that records what is sent"""
    def __init__(self):
        self.sent = []
        self.sender = 'nobody'

    def start_udp_connection(self):
        return 'socket'

    def send_packet(self, sock, buf, host):
        if buf is None:
            raise Exception('No data specified')
        self.sent.append((buf, host.ip, host.port))


def dispatcher(settings=None, handler=None):
    """(dispatcher, its client) over the small template"""
    if 'x' not in XML:
        XML['x'] = MessageDotXML()
    c = Client()
    if settings is None:
        settings = Settings(quiet_logging=True)
    if handler is None:
        handler = MessageHandler(settings)
    d = UDPDispatcher(c, settings, handler, message_template=h.templfile(TEMPLATE), message_xml=XML['x'])
    return d, c


def ping(n=1):
    return Message('StartPingCheck', Block('PingID', PingID=n, OldestUnacked=0))


def complete(n=1):
    return Message('CompletePingCheck', Block('PingID', PingID=n))


PING = '\x01'
COMPLETE = '\x02'
ACK = '\xff\xff\xff\xfb'


def packet(pid, flags=0, name='ping', acks=None, data=None):
    """the wire form of an incoming packet"""
    b = chr(flags) + lib_ref.be(pid, 4) + '\0'
    if name == 'ping':
        b += PING + '\x07\0\0\0\0'
    elif name == 'complete':
        b += COMPLETE + '\x07'
    elif name == 'ack':
        b += ACK + chr(len(data)) + ''.join([lib_ref.le(a, 4) for a in data])
    elif name == 'close':
        b += '\xff\xff\xff\xfd'
    if acks is not None:
        b += ''.join([lib_ref.be(a, 4) for a in acks]) + chr(len(acks))
    return b


def unbe(s):
    v = 0
    for c in s:
        v = (v << 8) | ord(c)
    return v


def unle(s):
    v = 0
    k = 0
    for c in s:
        v = v | (ord(c) << k)
        k += 8
    return v


class Sent(object):
    """a sent packet, taken apart"""
    def __init__(self, buf):
        self.flags = ord(buf[0])
        self.pid = unbe(buf[1:5])
        rest = buf[6:]
        self.acks = []
        if self.flags & 0x10:
            n = ord(rest[-1])
            tail = rest[len(rest) - 1 - 4 * n:-1]
            self.acks = [unbe(tail[4 * k:4 * k + 4]) for k in range(n)]
            rest = rest[:len(rest) - 1 - 4 * n]
        self.body = rest
        self.reliable = (self.flags & 0x40) != 0
        self.ids = None
        if rest[:4] == ACK:
            n = ord(rest[4])
            self.ids = [unle(rest[5 + 4 * k:9 + 4 * k]) for k in range(n)]


def any_name(n):
    """the name of a message: one of the template, or (n > 0) any n characters"""
    if n == 0:
        return h.choice('name', [e[0] for e in lib_ref.ENTRIES if e[0] != 'PacketAck'])
    name = h.bytes('name', n)
    h.assume(h.not_(h.eq(name, 'PacketAck')))
    return name


def same_ids(got, want):
    """the same set of ids, none more often than wanted"""
    cs = [len(got) <= len(want)]
    for x in want:
        cs.append(h.or_(*[x == y for y in got]))
    for y in got:
        cs.append(h.or_(*[x == y for x in want]))
    return h.and_(*cs)


def side_by_side(steps):
    """two dispatchers that talk to the same host at the same time: [(circuit, client, ids sent, received, outstanding)]"""
    two = [dispatcher() for k in range(2)]
    host = Host(('10.0.0.1', 13000))
    base = h.int('base', 1, 0xffff0000)
    sent, received, outstanding = [0, 0], [[], []], [[], []]
    for k in range(steps):
        w = h.choice('who', [0, 1])
        d = two[w][0]
        op = h.choice('op', ['reliable', 'receive', 'ack'])
        if op == 'reliable':
            d.send_reliable(ping(k), host, 0)
            sent[w] += 1
            outstanding[w].append(sent[w])
        elif op == 'receive':
            p = packet(base + k, 0x40)
            d.receive_check(host, p, len(p))
            received[w].append(base + k)
        else:
            a = h.int('acked', 1, 3)
            p = packet(base + k, 0x10, 'complete', acks=[a])
            d.receive_check(host, p, len(p))
            outstanding[w] = [x for x in outstanding[w] if not h.flag(a == x)]
    for d, c in two:
        d.process_acks()
    out = []
    for w in range(2):
        out.append((two[w][0].find_circuit(host), [Sent(s[0]) for s in two[w][1].sent], sent[w], received[w], outstanding[w]))
    return out
