"""C04: zero-coded packets decode exactly like their expanded form."""
import h
import lib_ref
import lib_seq
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='payloads of up to 6 (quick) or 9 (thorough) arbitrary bytes; single runs of 1 to 4097 (quick) or 65537 (thorough) zeros between arbitrary non-zero bytes; up to 300 runs and 12000 bytes; '
           'any count byte 1..255; whole packets of the messages named in the cases with arbitrary field values, with and without acks; sequences of three packets of 13 kinds on one deserializer',
    outside='longer arbitrary payloads; malformed coding (a zero with count zero)',
    stubs='struct and uuid are engine models of the Jython library',
)

S = {}


def setup():
    lib_seq.setup()
    st = Settings(quiet_logging=True)
    st.ENABLE_DEFERRED_PACKET_PARSING = False
    S['des'] = UDPMessageDeserializer(lib_ref.AllHandled(), st)


def any_payload(n):
    p = h.bytes('p', n)
    c = lib_ref.encode(p)
    h.check(h.eq(S['des'].zero_code_expand(c, len(c)), p), 'expanding a coded payload restores it')


def long_run(n):
    a, b = h.bytes('a', 2), h.bytes('b', 1)
    for c in a + b:
        h.assume(c != '\0')
    p = a + '\0' * n + b
    c = lib_ref.encode(p)
    h.check(len(c) < len(p) or n < 3, 'runs are coded')
    h.check(h.eq(S['des'].zero_code_expand(c, len(c)), p), 'long runs are restored')
    p = '\0' * n
    c = lib_ref.encode(p)
    h.check(h.eq(S['des'].zero_code_expand(c, len(c)), p), 'a payload of zeros is restored')


def many_runs(n, gap):
    """many runs of zeros"""
    a = h.bytes('a', 3)
    for c in a:
        h.assume(c != '\0')
    p = a[0] + ('\0' * gap + 'x') * n + a[1] + '\0' * 7 + a[2]
    c = lib_ref.encode(p)
    h.check(h.eq(S['des'].zero_code_expand(c, len(c)), p), 'many runs are restored')


def any_count():
    n = h.int('n', 1, 255)
    a, b = h.bytes('a', 1), h.bytes('b', 1)
    h.assume(a != '\0')
    h.assume(b != '\0')
    r = S['des'].zero_code_expand(a + '\0' + chr(n) + b, 4)
    h.check(len(r) == n + 2, 'a count expands to that many zeros')
    h.check(h.and_(r[0] == a, r[-1] == b, r[1:-1] == '\0' * h.realise(n)), 'and to nothing else')


def packet(name, count, length, acks, flags):
    e = lib_ref.by_name(name)
    g = lib_ref.Gen(e, count, length)
    pid = h.bytes('pid', 4)
    tail = ''
    if acks:
        tail = (h.bytes('acks', 4 * acks) if acks < 8 else h.bytes('acks', 8) + '\0\1\0\0' * (acks - 4) + h.bytes('last', 8)) + chr(acks)
        flags = flags | 0x10
    body = lib_ref.id_bytes(e[1], e[2]) + g.wire
    plain = S['des'].deserialize(chr(flags) + pid + '\0' + body + tail)
    coded = S['des'].deserialize(chr(flags | 0x80) + pid + '\0' + lib_ref.encode(body) + tail)
    h.check(plain is not None, 'the plain packet decodes')
    h.check(coded is not None, 'the coded packet decodes')
    h.check(lib_ref.same_message(plain, coded), 'a coded packet decodes like its expanded form')
    h.check(coded.send_flags == flags | 0x80, 'flags are kept')
    h.check(g.same(coded), 'and to the encoded values')


def any_message(entry):
    """packets of every message: sparse field bytes, two of them arbitrary"""
    v = h.bytes('v', 2)
    state = [0]

    def src(n):
        out = ''
        for k in range(n):
            i = state[0]
            state[0] += 1
            if i == 1:
                out += v[0]
            elif i == 6:
                out += v[1]
            elif i % 5 == 3 or i == 0:
                out += '\x41'
            else:
                out += '\0'
        return out
    b = lib_ref.id_bytes(entry[1], entry[2]) + lib_ref.body(entry, 2, 3, src)
    plain = S['des'].deserialize('\x40\0\0\x01\x02\0' + b)
    coded = S['des'].deserialize('\xc0\0\0\x01\x02\0' + lib_ref.encode(b))
    h.check(plain is not None and coded is not None, 'both decode')
    h.check(lib_ref.same_message(plain, coded), 'every message decodes alike in both forms')


def cases(tier):
    out = []
    top = 6 if tier == 'quick' else 9
    for n in range(1, top + 1):
        out.append(('any %d bytes' % n, any_payload, (n,)))
    for n in (1, 2, 3, 254, 255, 256, 257, 509, 510, 511, 600, 1023, 1025, 2049, 4097) + (() if tier == 'quick' else (8193, 10000, 16385, 65537)):
        out.append(('run of %d zeros' % n, long_run, (n,)))
    out += [('%d runs of %d zeros' % (n, g), many_runs, (n, g)) for n, g in ((40, 255), (40, 256), (300, 1), (20, 600))]
    out.append(('any count', any_count))
    for name, c, l in (('StartPingCheck', 1, 0), ('CompletePingCheck', 1, 0), ('PacketAck', 1, 0), ('OpenCircuit', 0, 0)):
        for acks in (0, 2):
            out.append(('%s with %d acks' % (name, acks), packet, (name, c, l, acks, 0x40 if acks else 0)))
    for acks in (1, 63, 64, 127, 128, 200, 255):
        out.append(('CompletePingCheck with %d acks' % acks, packet, ('CompletePingCheck', 1, 0, acks, 0x40)))
    ok = MessageDotXML()
    for e in lib_ref.ENTRIES:
        if ok.validate_udp_msg(e[0]) and e[3]:
            out.append(('sparse %s' % e[0], any_message, (e,)))
    out += lib_seq.cases(['coded', 'coded with acks', 'coded and cut'], tier)
    return out
