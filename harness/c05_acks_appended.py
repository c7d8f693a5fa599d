"""C05: acks appended to a packet are read and written separately from the message data."""
import h
import lib_ref
import lib_seq
import lib_net
from pyogp.lib.base.message.circuit import Host, Circuit
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='every message that may travel over UDP; all field values and ack ids; 0 to 3 acks per message, and 4 to 255 acks for one message; pending acks '
           'of a circuit and messages of any name up to 30 (quick) or 31 (thorough) characters; sequences of three packets of 13 kinds on one deserializer',
    outside='NaN; variable fields longer than 2 bytes; more than one repeat of a variable block',
    stubs='struct and uuid are engine models of the Jython library; message.xml is parsed by an engine model of llbase',
)

S = {}


def setup():
    lib_seq.setup()
    st = Settings(quiet_logging=True)
    st.ENABLE_DEFERRED_PACKET_PARSING = False
    S['des'] = UDPMessageDeserializer(lib_ref.AllHandled(), st)
    S['ser'] = UDPMessageSerializer()


def ids(n):
    # of many acks the first, the last and one in between are any number
    raws, vals = [], []
    for k in range(n):
        v = h.int('ack%d' % k, 0, 0xffffffff) if n < 8 or k in (0, n // 2, n - 1) else 0x1020304 * (k % 5 + 1) + 257 * k
        vals.append(v)
        raws.append(lib_ref.be(v, 4))
    return vals, ''.join(raws) + chr(n)


def received(entry, n, count, length):
    g = lib_ref.Gen(entry, count, length)
    vals, tail = ids(n)
    pid = h.bytes('pid', 4)
    fl = h.choice('flags', [0x10, 0x50])
    m = S['des'].deserialize(chr(fl) + pid + '\0' + lib_ref.id_bytes(entry[1], entry[2]) + g.wire + tail)
    h.check(m is not None, 'a packet with acks decodes')
    h.check(m.name == entry[0], 'to its message')
    h.check(h.eq(list(m.acks), vals), 'with exactly the appended acks, in order')
    h.check(g.shape(m, entry[3], count), 'the blocks are unaffected')
    h.check(g.same(m), 'the field values are unaffected')
    h.check(h.eq(lib_ref.be(m.packet_id, 4), pid), 'the packet id is unaffected')
    h.check(m.packet_id >= 0, 'and unsigned')
    h.check(m.reliable == (fl == 0x50), 'reliability is unaffected')
    h.observe('acks', list(m.acks))


def coded(entry, n):
    """acks behind a zero-coded packet are not coded"""
    g = lib_ref.Gen(entry, 1, 2)
    vals, tail = ids(n)
    fl = h.choice('flags', [0x90, 0xd0])
    m = S['des'].deserialize(chr(fl) + '\0\0\0\x05\0' + lib_ref.encode(lib_ref.id_bytes(entry[1], entry[2]) + g.wire) + tail)
    h.check(m is not None and m.name == entry[0], 'a zero-coded packet with acks decodes to its message')
    h.check(h.eq(list(m.acks), vals), 'with exactly the acks appended to it')
    h.check(g.same(m), 'and the coded field values')


def unflagged(entry):
    """without the flag nothing is taken for an ack"""
    g = lib_ref.Gen(entry, 1, 2)
    m = S['des'].deserialize('\x00\0\0\0\x01\0' + lib_ref.id_bytes(entry[1], entry[2]) + g.wire)
    h.check(h.and_(len(m.acks) == 0, g.same(m)), 'without the flag the tail is message data')


def sent(entry, n):
    g = lib_ref.Gen(entry, 1, 2)
    g.msg.packet_id = 7
    g.msg.send_flags = 0x40
    plain = S['ser'].serialize(g.msg)
    vals, tail = ids(n)
    for v in vals:
        g.msg.add_ack(v)
    g.msg.send_flags = 0x50
    buf = S['ser'].serialize(g.msg)
    h.check(h.eq(buf, '\x50' + plain[1:] + tail), 'acks follow the message data, then their count')


def prepared(length):
    """a circuit appends its pending acks to any message but a PacketAck"""
    c = Circuit(Host(('10.0.0.1', 5)), 0)
    vals = [h.int('ack', 0, 0xffffffff) for k in range(2)]
    for v in vals:
        c.collect_ack(v)
    m = Message(lib_net.any_name(length))
    fl = h.choice('flag', [0, 0x40, 0x20])
    c.prepare_packet(m, fl)
    h.check(h.eq(list(m.acks), vals) and m.num_acks == 2, 'the pending acks are appended to a packet of any name')
    h.check(m.send_flags == fl | 0x10, 'and flagged')
    p = Message('PacketAck', Block('Packets', ID=vals[0]))
    c.prepare_packet(p)
    h.check(list(p.acks) == [] and p.send_flags == 0, 'a PacketAck takes none along')


def cases(tier):
    ok = MessageDotXML()
    out = []
    for k, e in enumerate(lib_ref.ENTRIES):
        if not ok.validate_udp_msg(e[0]):
            continue
        if e[3] or tier != 'quick':
            ns = [1 + k % 3] if tier == 'quick' else [0, 1, 2, 3]
            for n in ns:
                out.append(('receive %s with %d acks' % (e[0], n), received, (e, n, 1, 2)))
        if tier != 'quick' or k % 4 == 0:
            out.append(('send %s with acks' % e[0], sent, (e, 2)))
            out.append(('receive %s without acks' % e[0], unflagged, (e,)))
    for n in (0, 1, 5, 9, 13, 20, 30) if tier == 'quick' else range(32):
        out.append(('prepare, name %d' % n, prepared, (n,)))
    for n in (0, 1, 2, 63, 64, 127, 128, 200, 255):
        out.append(('coded CompletePingCheck with %d acks' % n, coded, (lib_ref.by_name('CompletePingCheck'), n)))
    for n in (0, 4, 63, 64, 127, 128, 200, 254, 255):
        out.append(('receive StartPingCheck with %d acks' % n, received, (lib_ref.by_name('StartPingCheck'), n, 1, 2)))
        out.append(('send StartPingCheck with %d acks' % n, sent, (lib_ref.by_name('StartPingCheck'), n)))
    out += lib_seq.cases(['plain', 'with acks', 'coded with acks', 'too many acks'], tier)
    return out
