"""C01: what is serialized decodes to the same message, for every message that may travel over UDP."""
import h
import lib_ref
import lib_any
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.settings import Settings
from pyogp.lib.base.message.message import Message, Block

INFO = dict(
    bounds='every message of the embedded template that the embedded message.xml allows over UDP; all field values (all integers of '
           'the field width, all non-NaN floats, all byte strings); variable fields of the lengths and variable blocks of the repeat '
           'counts named in each case; each after another message, which has a block of the same name with other fields where there is one; a custom template with every field type, frequency and kind of block; up to 255 repeats and 3000 '
           '(thorough: 70000) bytes of mostly fixed contents',
    outside='NaN; text fields that end in NUL (the terminator is stripped); longer variable fields and more repeats; quaternion '
            'components other than three fixed ones (see C29)',
    stubs='struct and uuid are engine models of the Jython library; message.xml is parsed by an engine model of llbase',
)

S = {}


def setup():
    st = Settings()
    st.ENABLE_DEFERRED_PACKET_PARSING = False
    S['ser'] = UDPMessageSerializer()
    S['ser2'] = UDPMessageSerializer(message_template=h.templfile(lib_ref.CUSTOM_TEXT))
    S['des2'] = UDPMessageDeserializer(lib_ref.AllHandled(), st, message_template=h.templfile(lib_ref.CUSTOM_TEXT))
    S['des'] = UDPMessageDeserializer(lib_ref.AllHandled(), st)


def round_trip(entry, count, length, which='', prior=None):
    ser, des = S['ser' + which], S['des' + which]
    if prior:
        # another message before, which has a block of the same name with other fields if there is one
        buf = ser.serialize(lib_any.message(prior))
        h.check(des.deserialize(buf).name == prior[0], 'the message before is decoded')
    g = lib_ref.Gen(entry, count, length)
    pid = h.int('packet_id', 0, 0x7fffffff)
    flags = h.choice('flags', [0, 0x40, 0x20])
    g.msg.packet_id = pid
    g.msg.send_flags = flags
    buf = ser.serialize(g.msg)
    h.check(buf is not None, 'an allowed message is serialized')
    again = ser.serialize(g.msg)
    h.check(h.eq(buf, again), 'serializing twice gives the same bytes')
    m = des.deserialize(buf)
    h.check(m is not None, 'the bytes are decoded')
    h.check(m.name == entry[0], 'same message name')
    h.check(h.and_(m.packet_id == pid, m.send_flags == flags), 'same packet id and flags')
    h.check(m.reliable == (flags == 0x40), 'reliable flag')
    h.check(len(m.acks) == 0, 'no acks appear')
    h.check(g.shape(m, entry[3], count), 'same number of blocks')
    h.check(g.same(m), 'same field values')
    m.packet_id = pid
    h.check(h.eq(ser.serialize(m), buf), 'the decoded message serializes to the same bytes')
    h.observe('buf', buf)


def prior_of(entry, entries):
    """an entry that has a block of the same name, but not the same"""
    k = entries.index(entry)
    rest = entries[k + 1:] + entries[:k]
    for e in rest:
        for b in e[3]:
            for c in entry[3]:
                if b[0] == c[0] and (b[1:3] != c[1:3] or b[3] != c[3]):
                    return e
    return rest[0]


def many(n):
    """many repeats of a block"""
    v, w = h.int('v', 0, 255), h.int('w', -0x8000, 0x7fff)
    m = Message('XOrder', Block('C', Z=1, A=2, M=3), [Block('B', Z=4, Data='x'), Block('B', Z=5, Data='\0')])
    for k in range(n):
        m.add_block(Block('A', Z=w if k == n - 1 else k, A=v if k == 0 else 7))
        m.add_block(Block('D', Name='t' if k else ''))
    buf = S['ser2'].serialize(m)
    d = S['des2'].deserialize(buf)
    h.check(d is not None and len(d['A']) == n and len(d['D']) == n and len(d['B']) == 2, 'all repeats arrive')
    h.check(h.and_(d['A'][n - 1]['Z'] == w, d['A'][0]['A'] == v), 'with their values')
    h.check([b['Z'] for b in d['A'][:n - 1]] == list(range(n - 1)), 'in order')
    h.check([b['Name'] for b in d['D']] == [''] + ['t'] * (n - 1), 'and those of the last block')
    h.check(h.eq(S['ser2'].serialize(d), S['ser2'].serialize(m)[:1] + buf[1:]), 'and back')


def header():
    """any flags and any packet id of a received packet"""
    pid = h.int('pid', 0, 0xffffffff)
    fl = h.int('flags', 0, 255)
    h.assume(fl & 0x90 == 0)
    m = S['des'].deserialize(chr(fl) + lib_ref.be(pid, 4) + '\0\x01\x07\0\0\0\0')
    h.check(m is not None and m.name == 'StartPingCheck', 'any flags, any id')
    h.check(h.and_(m.packet_id == pid, m.send_flags == fl), 'are reported as they are')
    h.check(m.reliable == h.flag(fl & 0x40 != 0), 'reliable by its flag')


def long_field(f, size, n):
    """a long field"""
    a, b = h.bytes('a', 2), h.bytes('b', 2)
    h.assume(b[1] != '\0')
    v = a + 'x' * (n - 4) + b
    x = h.int('x', 0, 65535)
    name = 'X%s%d' % (f, size)
    m = Message(name, Block('A', **{f: v, 'After': x}))
    buf = S['ser2'].serialize(m)
    d = S['des2'].deserialize(buf)
    h.check(d is not None, 'a long field is decoded')
    h.check(h.and_(h.eq(d['A'][0][f], v), d['A'][0]['After'] == x), 'unharmed')


def cases(tier):
    ok = MessageDotXML()
    out = []
    shapes = [(1, 2)] if tier == 'quick' else [(1, 0), (1, 5), (3, 2)]
    allowed = [e for e in lib_ref.ENTRIES if ok.validate_udp_msg(e[0])]
    for e in allowed:
        var = False
        allvar = True
        vfield = False
        for b in e[3]:
            if b[1] == 'Variable':
                var = True
            else:
                allvar = False
            for f in b[3]:
                if f[1] == 'Variable':
                    vfield = True
        for c, l in shapes:
            if (c, l) != shapes[0] and not (c != shapes[0][0] and var or vfield and c == shapes[0][0]):
                continue
            out.append(('%s repeats %d length %d' % (e[0], c, l), round_trip, (e, c, l, '', prior_of(e, allowed))))
        if var and not allvar:
            out.append(('%s repeats 0' % e[0], round_trip, (e, 0, 1)))
    for e in lib_ref.CUSTOM:
        for c, l in [(1, 2), (3, 0)] + ([(2, 5)] if tier != 'quick' else []):
            out.append(('custom %s repeats %d length %d' % (e[0], c, l), round_trip, (e, c, l, '2')))
    out.append(('header', header))
    for n in (127, 128, 200, 255):
        out.append(('%d repeats' % n, many, (n,)))
    for f in ('Data', 'Text'):
        for size, n in ((1, 127), (1, 128), (1, 254), (2, 255), (2, 256), (2, 300), (2, 3000), (4, 3000), (4, 65534), (4, 65536), (4, 70000)):
            if tier != 'quick' or n < 3001 or size == 4 and f == 'Data' and n == 65536:
                out.append(('%s of %d, size %d' % (f, n, size), long_field, (f, size, n)))
    return out
