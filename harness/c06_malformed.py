"""C06: whatever bytes arrive, decoding ends in a message, in nothing, or in a deserialization error."""
import h
import lib_ref
import lib_seq
from pyogp.lib.base import exc
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.message.message import Message
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='all byte strings of up to 7 (quick) or 9 (thorough) bytes; for every message of the template its number followed by up to 3 '
           '(quick) or 6 (thorough) arbitrary bytes, plain, zero-coded and with the ack flag; valid packets truncated at their last bytes (thorough: anywhere); valid '
           'packets with one arbitrary byte; sequences of three packets of 13 kinds on one deserializer',
    outside='longer arbitrary packets',
    stubs='struct and uuid are engine models of the Jython library; the UDP client is a stand-in that hands out the packets',
)

S = {}


def setup():
    lib_seq.setup()
    st = Settings(quiet_logging=True)
    st.ENABLE_DEFERRED_PACKET_PARSING = False
    S['st'] = st
    S['des'] = UDPMessageDeserializer(lib_ref.AllHandled(), st)
    x = MessageDotXML()
    S['allowed'] = [e[0] for e in lib_ref.ENTRIES if x.validate_udp_msg(e[0])]
    S['names'] = [e[0] for e in lib_ref.ENTRIES]


def outcome(buf):
    try:
        r = S['des'].deserialize(buf)
    except exc.MessageDeserializationError, e:
        h.check(len(str(e)) > 0, 'the error can be reported')
        h.observe('outcome', 'refused')
        return None
    h.check(r is None or isinstance(r, Message), 'a decoded packet is a message')
    if r is not None:
        h.check(r.name in S['names'], 'of the template')
        h.observe('outcome', r.name)
    else:
        h.observe('outcome', None)
    return r


def any_bytes(n, coded):
    b = h.bytes('b', n)
    if n:
        h.assume((ord(b[0]) & 0x80 != 0) == coded)
    outcome(b)


def any_tail(entry, n, flags):
    fl = h.choice('flags', flags)
    t = h.bytes('t', n)
    outcome(chr(fl) + '\0\0\0\x01\0' + lib_ref.id_bytes(entry[1], entry[2]) + t)


def extra_header(entry):
    """a header that announces extra bytes after the message number"""
    o = h.bytes('offset', 1)
    outcome('\0\0\0\0\x01' + o + lib_ref.id_bytes(entry[1], entry[2]) + h.bytes('t', 6))


def skipped_header(entry, k):
    """extra header bytes are skipped, not read as fields"""
    g = lib_ref.Gen(entry, 1, 1)
    x = h.bytes('x', 1) + '\x07' * (k - 2) + h.bytes('y', 1) if k > 1 else h.bytes('x', k)
    r = outcome('\0\0\0\0\x01' + chr(k) + lib_ref.id_bytes(entry[1], entry[2]) + x + g.wire)
    if entry[0] in S['allowed']:
        h.check(r is not None and g.same(r), 'extra header bytes are not read as fields')
    else:
        h.check(r is None, 'a message that may not travel is dropped')


def truncated(entry, step, count=1, length=1):
    g = lib_ref.Gen(entry, count, length)
    w = lib_ref.id_bytes(entry[1], entry[2]) + g.wire
    need = len(w)
    if entry[0] == 'RegionHandshakeReply':
        need -= 4
    first = len(lib_ref.id_bytes(entry[1], entry[2]))
    ks = [k for k in range(first, need) if k % step == 0 or k >= need - 3 or k == first]
    if count > 1:
        # where a repeat of a block ends
        at, ks = 0, []
        for bname, r, fname, f in g.fields:
            if at < len(g.fields) and r and fname == [x[2] for x in g.fields if x[0] == bname][0]:
                ks.append(g.starts[at])
            at += 1
        ks = sorted(set([first + k for k in ks if first + k < need]))
    if not ks:
        return
    k = h.choice('length', ks)
    r = outcome('\0\0\0\0\x01\0' + w[:k])
    h.check(r is None, 'a truncated packet is not taken for the message')


class Socket(object):
    """a socket that hands out the given datagrams, then stops the manager"""
    def __init__(self, packets):
        self.packets = packets
        self.sent = []
        self.manager = None

    def recvfrom(self, size):
        if not self.packets:
            self.manager.stop_monitors()
            raise Exception('timed out')
        return self.packets.pop(0), ('127.0.0.1', 9)

    def sendto(self, buf, addr):
        self.sent.append((buf, addr))
        return len(buf)


def loop(n, flags):
    """the receive loop goes on after whatever packet"""
    sock = Socket([chr(flags) + h.bytes('b', n), '\x40\0\0\0\x05\0' + '\x01' + '\x07' + '\0\0\0\0'])
    h.patch_lib('socket', 'socket', lambda *a: sock)
    m = MessageManager(Host(('127.0.0.1', 9)), settings=S['st'])
    sock.manager = m
    spawned = []
    h.patch_lib('eventlet.api', 'spawn', lambda f, *a, **k: spawned.append(f))
    got = []
    m.message_handler.register('StartPingCheck').subscribe(got.append)
    m.start_monitors()
    spawned[0]()
    h.check(sock.packets == [], 'every datagram is read')
    h.check(len(got) >= 1 and got[-1]['PingID'][0]['PingID'] == 7, 'the packet after it is handled')


def cases(tier):
    out = []
    top = 7 if tier == 'quick' else 9
    for n in range(0, top + 1):
        out.append(('any %d bytes' % n, any_bytes, (n, False)))
        out.append(('any %d zero-coded bytes' % n, any_bytes, (n, True)))
    ns = (0, 5) if tier == 'quick' else (0, 1, 2, 3, 4, 6, 9, 14, 20)
    for i, e in enumerate(lib_ref.ENTRIES):
        for n in ns:
            out.append(('%s and any %d bytes' % (e[0], n), any_tail, (e, n, [0, 0x10])))
        if tier != 'quick' or i % 24 == 0:
            out.append(('%s and any 2 zero-coded bytes' % e[0], any_tail, (e, 2, [0x80])))
            out.append(('%s with extra header' % e[0], extra_header, (e,)))
            for k in (0, 1, 5, 127, 128, 255):
                if e[3]:
                    out.append(('%s behind %d header bytes' % (e[0], k), skipped_header, (e, k)))
        out.append(('truncated %s' % e[0], truncated, (e, 40 if tier == 'quick' else 1)))
        if any([b[1] != 'Single' for b in e[3]]) and (tier != 'quick' or i % 3 == 0):
            out.append(('truncated %s, repeats' % e[0], truncated, (e, 40, 3)))
        if any([f[1] == 'Variable' for b in e[3] for f in b[3]]) and (tier != 'quick' or i % 5 == 0):
            for n in (6, 40):
                out.append(('truncated %s, lengths' % e[0] if n == 6 else 'truncated %s, long' % e[0], truncated, (e, 4000, 1, n)))
    out.append(('loop', loop, (7, 0)))
    out.append(('loop, zero-coded', loop, (7, 0x80)))
    out.append(('loop, acks', loop, (6, 0x10)))
    out += lib_seq.cases(lib_seq.KINDS, tier)
    return out
