"""C03: the message number bytes of a packet select exactly the message the template gives them to."""
import h
import lib_ref
from llbase import llsd
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.template_dict import TemplateDictionary
from pyogp.lib.base.message.data import msg_details
from pyogp.lib.base.settings import Settings
from pyogp.lib.base import exc

INFO = dict(
    bounds='all values of the flags byte without ack and zero-code bits, of the packet id and of the four message number bytes; all '
           'frequencies and all 16-bit numbers for the look-up by pair; sequences of three packets of the same number in two frequencies; every number after a packet with another number',
    outside='PacketAck, which is always parsed (C11); zero-coded packets and packets with acks (C04, C05)',
    stubs='message.xml is parsed by an engine model of llbase',
)

S = {}


class Recorder(object):
    """a message handler that watches nothing and records what it is asked about"""
    def __init__(self):
        self.asked = []

    def is_message_handled(self, name):
        self.asked.append(name)
        return False

    def handle(self, m):
        self.asked.append('handled')


PRIOR = {'high': '\x01', 'medium': '\xff\x06', 'low': '\xff\xff\0\x08', 'fixed': '\xff\xff\xff\xfd', 'unknown': '\xff\xff\xfe\xfe', 'cut': '\xff'}


def setup():
    S['rec'] = Recorder()
    S['des'] = UDPMessageDeserializer(S['rec'], Settings(quiet_logging=True))
    S['td'] = TemplateDictionary()
    x = llsd.parse(msg_details)['messages']
    S['banned'] = [n for n in x if x[n].get('flavor') != 'template']
    S['by'] = {}
    for f in ('High', 'Medium', 'Low', 'Fixed'):
        S['by'][f] = {}
        for n in range(1, 31):
            for e in lib_ref.ENTRIES:
                if e[0] not in S['banned'] and e[1] == f and lib_ref.id_bytes(e[1], e[2]) == idb_of(f, n):
                    S['by'][f][n] = e[0]


def ident(tail, kind, prior=None):
    if prior:
        # what a number means does not depend on the packet before it
        S['des'].deserialize('\0\0\0\0\1\0' + prior + '\0' * 6)
    flags = h.int('flags', 0, 255)
    h.assume(flags & 0x90 == 0)
    pid = h.bytes('pid', 4)
    idb = h.bytes('id', 4)
    if kind == 'high':
        h.assume(idb[0] != '\xff')
    elif kind == 'medium':
        h.assume(idb[0] == '\xff')
        h.assume(idb[1] != '\xff')
    elif kind == 'low':
        h.assume(idb[:2] == '\xff\xff')
        h.assume(idb[2] != '\xff')
    else:
        h.assume(idb[:3] == '\xff\xff\xff')
    S['rec'].asked = []
    # PacketAck is parsed even if nobody watches it
    h.assume(idb != '\xff\xff\xff\xfb')
    r = S['des'].deserialize(chr(flags) + pid + '\0' + idb + '\0' * tail)
    h.check(r is None, 'a message nobody watches is not decoded')
    asked = S['rec'].asked
    h.check(len(asked) <= 1, 'one message is identified')
    if asked:
        e = lib_ref.by_name(asked[0])
        h.check(e is not None, 'it is a message of the template')
        p = lib_ref.id_bytes(e[1], e[2])
        h.check(idb[:len(p)] == p, 'the number bytes are those of the identified message')
        h.check(e[0] not in S['banned'], 'it may travel over UDP')
    else:
        cs = []
        for e in lib_ref.ENTRIES:
            if e[0] not in S['banned'] and e[0] != 'PacketAck':
                p = lib_ref.id_bytes(e[1], e[2])
                cs.append(idb[:len(p)] != p)
        h.check(h.and_(*cs), 'an unidentified packet matches no message of the template')
    h.observe('asked', asked)


def idb_of(freq, n):
    return {'High': chr(n), 'Medium': '\xff' + chr(n), 'Low': '\xff\xff\0' + chr(n), 'Fixed': '\xff\xff\xff' + chr(n)}[freq]


def after(first, second):
    """what a number means does not depend on the packets before it"""
    n = h.int('n', 1, 30)
    S['rec'].asked = []
    want = []
    for f in (first, second, first):
        r = S['des'].deserialize('\0\0\0\0\1\0' + idb_of(f, n) + '\0' * 6)
        h.check(r is None, 'a message nobody watches is not decoded')
        want.append(S['by'][f].get(n))
    h.check(S['rec'].asked == [w for w in want if w], 'each number selects its message, whatever came before')
    h.observe('asked', S['rec'].asked)


def pair(freq):
    num = h.int('num', 0, 0xffff)
    t = S['td'].get_template_by_pair(freq, num)
    cs = []
    for e in lib_ref.ENTRIES:
        if e[1] == freq:
            cs.append(num == e[2])
            if t is not None and t.name == e[0]:
                h.check(num == e[2], 'the pair selects the message with that number')
    if t is None:
        h.check(h.not_(h.or_(*cs)), 'only unused pairs select nothing')
    else:
        h.check(lib_ref.by_name(t.name)[1] == freq, 'of that frequency')
    h.observe('t', t and t.name)


def names():
    """every template is found by its name and number, with its number bytes"""
    td = S['td']
    bad = []
    for e in lib_ref.ENTRIES:
        t = td.get_template(e[0])
        if t is None or td[e[0]] is not t or td.get_template_by_pair(e[1], e[2]) is not t or t.name != e[0] \
           or t.msg_num_hex != lib_ref.id_bytes(e[1], e[2]):
            bad.append(e[0])
    h.check(bad == [], 'found by name and by pair, with the number bytes')
    h.check(len(td.get_template_list()) == len(lib_ref.ENTRIES), 'all messages are listed')
    n = h.bytes('name', 8)
    t = td.get_template(n)
    if t is None:
        h.check(h.and_(*[n != e[0] for e in lib_ref.ENTRIES]), 'only unknown names find nothing')
    else:
        h.check(n == t.name, 'a name finds its own template')


def cases(tier):
    out = []
    for k in ('high', 'medium', 'low', 'fixed'):
        out.append(('%s numbers, 0 more bytes' % k, ident, (0, k)))
        for j in ((k,) if tier == 'quick' else sorted(PRIOR)):
            out.append(('%s numbers, 6 more bytes, after one that is %s' % (k, j), ident, (6, k, PRIOR[j])))
    for f in ('High', 'Medium', 'Low', 'Fixed'):
        out.append(('pairs of %s' % f, pair, (f,)))
    for f in ('High', 'Medium', 'Low', 'Fixed'):
        for g in ('High', 'Medium', 'Low', 'Fixed'):
            if f != g or tier != 'quick':
                out.append(('%s after %s' % (g, f), after, (f, g)))
    out.append(('names', names))
    return out
