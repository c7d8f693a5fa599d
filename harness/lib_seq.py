"""Packets of all kinds in turn on one deserializer. Shared by several harnesses."""
import h
import lib_ref
import lib_net
from pyogp.lib.base import exc
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.message import Message
from pyogp.lib.base.settings import Settings

KINDS = ['plain', 'with acks', 'coded', 'coded with acks', 'other', 'repeats', 'resent', 'cut', 'cut repeat', 'unknown', 'too many acks', 'coded and cut', 'nothing']
GOOD = KINDS[:7]
S = {}


def setup():
    st = Settings(quiet_logging=True)
    st.ENABLE_DEFERRED_PACKET_PARSING = False
    S['des'] = UDPMessageDeserializer(lib_ref.AllHandled(), st, message_template=h.templfile(lib_net.TEMPLATE))


def packet(kind, k):
    """(bytes, what they mean or None)"""
    v = h.int('v', 1, 255)
    pid = 0x1020300 + k
    a = h.int('ack', 0, 0xffffffff)
    c = chr(v)
    acks = []
    flags = {'with acks': 0x10, 'coded': 0x80, 'coded with acks': 0xd0, 'resent': 0x60, 'too many acks': 0x10, 'coded and cut': 0x80}.get(kind, 0)
    name, blocks = 'StartPingCheck', {'PingID': [{'PingID': v, 'OldestUnacked': 0}]}
    body = '\x01' + c + '\0\0\0\0'
    if kind.startswith('coded'):
        body = '\x01' + c + '\0\x04'
    if kind == 'other':
        name, blocks, body = 'CompletePingCheck', {'PingID': [{'PingID': v}]}, '\x02' + c
    if kind == 'repeats':
        name, blocks, body = 'Blob', {'Part': [{'Data': c + '\0'}, {'Data': ''}, {'Data': 'xyz'}]}, '\xff\xff\x01\x2c\x03\x02\0' + c + '\0\0\0\x03\0xyz'
    if kind.endswith('with acks'):
        acks = [a, 7]
        body += lib_ref.be(a, 4) + '\0\0\0\x07\x02'
    if kind == 'nothing':
        return '', None
    if kind == 'cut':
        body = body[:4]
    if kind == 'cut repeat':
        body = '\xff\xff\x01\x2c\x02\x01\0' + c + '\x05\0abc'
    if kind == 'coded and cut':
        body = '\x01' + c + '\0\x02'
    if kind == 'unknown':
        body = '\xff\xff\x70\x01' + c * 6
    if kind == 'too many acks':
        body += '\x03'
    if kind in GOOD:
        return chr(flags) + lib_ref.be(pid, 4) + '\0' + body, (name, pid, flags, acks, blocks)
    return chr(flags) + lib_ref.be(pid, 4) + '\0' + body, None


def in_turn(*menus):
    """decodes one packet of each menu; what each means does not depend on those before"""
    for k, menu in enumerate(menus):
        kind = h.choice('packet', menu) if len(menu) > 1 else menu[0]
        buf, want = packet(kind, k)
        try:
            m = S['des'].deserialize(buf)
        except exc.MessageDeserializationError:
            m = None
        h.observe('outcome', m and m.name)
        if want is None:
            h.check(m is None, 'a packet that is no message is none, whatever came before')
            continue
        name, pid, flags, acks, blocks = want
        h.check(isinstance(m, Message) and m.name == name, 'a packet is its message, whatever came before')
        h.check(h.eq([m.packet_id, m.send_flags, bool(m.reliable), list(m.acks)], [pid, flags, flags & 0x40 != 0, acks]),
                'with its own id, flags and acks, whatever came before')
        h.check(sorted(m.blocks) == sorted(blocks) and [len(m.blocks[b]) for b in blocks] == [len(blocks[b]) for b in blocks],
                'its own blocks, whatever came before')
        h.check(h.and_(*[h.eq(dict([(f, x[f]) for f in x.vars]), y) for b in blocks for x, y in zip(m.blocks[b], blocks[b])]),
                'and its own values, whatever came before')


def cases(last, tier, more=True):
    """every pair of packets, the second one of last; with tier thorough: every three"""
    out = [('%s, then any' % k, in_turn, ([k], last)) for k in KINDS]
    if tier != 'quick':
        out += [('%s, %s, then any' % (k, j), in_turn, ([k], [j], last)) for k in KINDS for j in KINDS]
    else:
        out += [('%s, good, then any' % k, in_turn, ([k], [GOOD[(i * 3 + 1) % 7]], last)) for i, k in enumerate(KINDS)]
    return out
