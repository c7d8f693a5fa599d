"""C02: the bytes produced for a message are exactly those the template prescribes."""
import uuid
import h
import lib_ref
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.message_dot_xml import MessageDotXML

INFO = dict(
    bounds='every message of the embedded template that may travel over UDP, and a custom template with every field type, frequency and kind of block; all field values; variable fields of the lengths and '
           'variable blocks of the repeat counts named in each case; all packet ids below 2^31; all flag bytes without the ack flag; '
           'histories of 3 (quick) or 4 (thorough) packets of one serializer for four pairs of messages, changed in between',
    outside='NaN; longer variable fields and more repeats',
    stubs='struct and uuid are engine models of the Jython library; the expected layout comes from an independent reading of '
          'message_template.msg (harness/lib_ref.py)',
)

S = {}


def setup():
    S['ser'] = UDPMessageSerializer()
    S['ser2'] = UDPMessageSerializer(message_template=h.templfile(lib_ref.CUSTOM_TEXT))


def layout(entry, count, length, which=''):
    g = lib_ref.Gen(entry, count, length)
    pid = h.int('packet_id', 0, 0x7fffffff)
    flags = h.int('flags', 0, 255)
    h.assume(flags & 0x10 == 0)
    g.msg.packet_id = pid
    g.msg.send_flags = flags
    if len(g.msg.blocks) and h.choice('blocks', ['new', 'moved']) == 'moved':
        # blocks that came from elsewhere carry the number they had there
        for name in g.msg.blocks:
            for k, b in enumerate(g.msg.blocks[name]):
                b.block_number = (7 - k) % 5
    buf = S['ser' + which].serialize(g.msg)
    want = chr(flags) + lib_ref.be(pid, 4) + '\0' + lib_ref.id_bytes(entry[1], entry[2]) + g.wire
    h.check(len(buf) == len(want), 'length of the packet')
    h.check(h.eq(buf, want), 'bytes of the packet')
    h.observe('buf', buf)


HEAD = '\0\0\0\0\1\0'


def raw(name, **kw):
    m = Message(name, *[Block(b, **f) for b, f in kw['blocks']])
    m.packet_id = 1
    buf = S['ser'].serialize(m)
    h.check(h.eq(buf[:6], HEAD), 'header')
    return buf[6:]


def text_field():
    """UUIDNameRequest-like text: unicode is UTF-8 encoded, an absent text is only the terminator"""
    which = h.choice('kind', ['none', 'ascii', 'latin', 'wide'])
    if which == 'none':
        v, enc = None, ''
    elif which == 'ascii':
        v = h.unicode('v', 3, 0, 127)
        enc = ''.join([chr(ord(c)) for c in v])
    elif which == 'latin':
        v = h.unicode('v', 2, 0x80, 0x7ff)
        enc = ''.join([chr(0xc0 | (ord(c) >> 6)) + chr(0x80 | (ord(c) & 63)) for c in v])
    else:
        v = h.unicode('v', 2, 0x800, 0xd7ff)
        enc = ''.join([chr(0xe0 | (ord(c) >> 12)) + chr(0x80 | ((ord(c) >> 6) & 63)) + chr(0x80 | (ord(c) & 63)) for c in v])
    a, s = h.bytes('a', 16), h.bytes('s', 16)
    ch = h.int('ch', -0x80000000, 0x7fffffff)
    tp = h.int('tp', 0, 255)
    got = raw('ChatFromViewer', blocks=[('AgentData', dict(AgentID=UUID(bytes=a), SessionID=uuid.UUID(bytes=s))),
                                        ('ChatData', dict(Message=v, Type=tp, Channel=ch))])
    want = lib_ref.id_bytes('Low', 80) + a + s + lib_ref.le(len(enc) + 1, 2) + enc + '\0' + chr(tp) + lib_ref.le(ch & 0xffffffff, 4)
    h.check(h.eq(got, want), 'text is encoded, terminated and counted')


def tuples():
    """tuples do for vectors and quaternions"""
    praw, p = lib_ref.floats('pos', 3, 'f')
    lraw, l = lib_ref.floats('look', 3, 'f')
    a, s = h.bytes('a', 16), h.bytes('s', 16)
    rh = h.int('rh', 0, 0xffffffffffffffff)
    form = h.choice('form', [0, 1])
    pos, look = tuple(p), tuple(l)
    if form:
        pos, look = Vector3(X=p[0], Y=p[1], Z=p[2]), Vector3(X=l[0], Y=l[1], Z=l[2])
    got = raw('TeleportLocationRequest', blocks=[('AgentData', dict(AgentID=UUID(bytes=a), SessionID=UUID(bytes=s))),
                                                 ('Info', dict(RegionHandle=rh, Position=pos, LookAt=look))])
    want = lib_ref.id_bytes('Low', 63) + a + s + lib_ref.le(rh, 8) + praw + lraw
    h.check(h.eq(got, want), 'vector objects and tuples give the same bytes')


def packet(g, pid, flags, entry):
    return chr(flags) + lib_ref.be(pid, 4) + '\0' + lib_ref.id_bytes(entry[1], entry[2]) + g


def history(entry, other, steps):
    """the packet depends on the values the message has now, not on what was written before"""
    a, b, o = lib_ref.Gen(entry, 1, 1), lib_ref.Gen(entry, 2, 2), lib_ref.Gen(other, 1, 1)
    a.msg.packet_id = b.msg.packet_id = o.msg.packet_id = 7
    blocks = {'a': (a.msg.blocks, a.wire), 'b': (b.msg.blocks, b.wire)}
    now = {'a': 'a', 'b': 'b'}
    got, want = [], []
    for _ in range(steps):
        op = h.choice('message', ['a', 'b', 'other', 'a with the blocks of b', 'a with other flags and id', 'a with the blocks of a'])
        if op == 'a with the blocks of b':
            a.msg.blocks = blocks['b'][0]
            now['a'] = 'b'
        elif op == 'a with the blocks of a':
            a.msg.blocks = blocks['a'][0]
            now['a'] = 'a'
        elif op == 'a with other flags and id':
            a.msg.packet_id = h.int('packet_id', 0, 0x7fffffff)
            a.msg.send_flags = h.choice('flags', [0, 0x40, 0xa0])
        if op == 'other':
            m, e, w = o.msg, other, o.wire
        elif op == 'b':
            m, e, w = b.msg, entry, b.wire
        else:
            m, e, w = a.msg, entry, blocks[now['a']][1]
        buf = S['ser'].serialize(m)
        h.check(h.eq(buf, packet(w, m.packet_id, m.send_flags, e)), 'bytes of the packet, whatever was written before')
        got.append(buf)
    h.observe('got', got)


def new_value(entry):
    """a value changed in place is written"""
    g = lib_ref.Gen(entry, 1, 1)
    S['ser'].serialize(g.msg)
    g2 = lib_ref.Gen(entry, 1, 1)
    for bname, r, fname, f in g2.fields:
        g.msg[bname][r].get_variable(fname).data = f.value
    buf = S['ser'].serialize(g.msg)
    h.check(h.eq(buf, packet(g2.wire, 0, 0, entry)), 'the values of now are written')
    h.observe('buf', buf)


def cases(tier):
    ok = MessageDotXML()
    out = [('text field', text_field), ('vectors as tuples', tuples)]
    pairs = [('PacketAck', 'CompletePingCheck'), ('UUIDNameRequest', 'PacketAck'), ('ImprovedTerseObjectUpdate', 'UUIDNameRequest'), ('CompletePingCheck', 'StartPingCheck')]
    for x, y in pairs:
        out.append(('history %s' % x, history, (lib_ref.by_name(x), lib_ref.by_name(y), 3 if tier == 'quick' else 4)))
        out.append(('changed %s' % x, new_value, (lib_ref.by_name(x),)))
    for e in lib_ref.CUSTOM:
        for c, l in [(2, 1), (0, 0), (3, 4)]:
            if c or not [b for b in e[3] if b[1] == 'Variable']:
                out.append(('custom %s repeats %d length %d' % (e[0], c, l), layout, (e, c, l, '2')))
    shapes = [(2, 1)] if tier == 'quick' else [(0, 4), (1, 0), (2, 1), (5, 3)]
    for e in lib_ref.ENTRIES:
        if not ok.validate_udp_msg(e[0]):
            continue
        var = False
        vfield = False
        for b in e[3]:
            if b[1] == 'Variable':
                var = True
            for f in b[3]:
                if f[1] == 'Variable':
                    vfield = True
        for c, l in shapes:
            if (c, l) != (2, 1) and not var and not vfield:
                continue
            out.append(('%s repeats %d length %d' % (e[0], c, l), layout, (e, c, l)))
    return out
