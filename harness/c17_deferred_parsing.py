"""C17: skipping the parsing of unwatched messages changes nothing but what it skips."""
import h
import lib_ref
import lib_net
import lib_any
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='every message of the template with any flags and ids, plain and zero-coded; every (quick: every fourth) UDP message with any values; histories of 2 (quick) or 3 '
           '(thorough) packets of four kinds with any ids, and five patterns of 120 (thorough: 600) packets; the same packets go to a dispatcher that defers and one that does not',
    outside='malformed packets (refused only when they are parsed); trusted circuits, which this library never sets up',
    stubs='the UDP client is a stand-in that records what is sent',
)
A = ('10.0.0.1', 13000)
S = {}


def view(c):
    return [c.last_packet_out_id, list(c.acks), sorted(c.unacked_packets.keys()), c.unack_packet_count]


def setup():
    out = []
    x = MessageDotXML()
    for deferred in (True, False):
        st = Settings(quiet_logging=True)
        st.ENABLE_DEFERRED_PACKET_PARSING = deferred
        mh = MessageHandler(st)
        c = lib_net.Client()
        out.append((UDPDispatcher(c, st, mh, message_xml=x), c, mh))
    S['full'] = out
    S['xml'] = x
    lib_any.S['allowed'] = dict([(e[0], x.validate_udp_msg(e[0])) for e in lib_ref.ENTRIES])
    lib_any.S['made'] = [o[:2] for o in out]


def full(entry):
    """any message of the full template"""
    fl = h.choice('flags', [0, 0x40, 0x60])
    watched = h.choice('watched', [True, False])
    g = lib_ref.Gen(entry, 1, 1)
    pid = h.int('pid', 0, 0xffffffff)
    acks = [h.int('ack', 0, 3)]
    buf = chr(fl | 0x10) + lib_ref.be(pid, 4) + '\0' + lib_ref.id_bytes(entry[1], entry[2]) + g.wire + lib_ref.be(acks[0], 4) + '\x01'
    one(buf, entry, g, watched, 'with acks')
    buf = chr(fl) + lib_ref.be(pid, 4) + '\0' + lib_ref.id_bytes(entry[1], entry[2]) + g.wire
    one(buf, entry, g, watched, 'without acks')


def flags(entry, tier):
    """any message with any flags, plain or zero-coded"""
    pick = lib_any.Picker(entry, tier)
    p = lib_any.Packet(pick, entry, (0, 3))
    watched = pick.choice('watched', [True, False])
    views = []
    for k in (0, 1):
        d, c = lib_any.dispatcher(k, k == 0)
        got = []
        if watched:
            d.message_handler.register(entry[0]).subscribe(got.append)
        for i in range(2):
            d.send_reliable(lib_net.ping(), Host(A), 0)
        d.receive_check(Host(A), p.wire, len(p.wire))
        v = view(d.find_circuit(Host(A)))
        d.send_message(lib_net.ping(), Host(A))
        d.process_acks()
        views.append([v, [list(s) for s in c.sent], [m.name for m in got], [m.packet_id for m in got]])
    h.check(h.eq(views[0], views[1]), 'with any flags the effect is the same')
    h.check(views[0][2] == ([entry[0]] if watched and lib_any.S['allowed'][entry[0]] else []), 'and exactly watched messages are delivered')


def one(buf, entry, g, watched, what):
    views, gots = [], []
    for d, c, mh in S['full']:
        d.circuit_manager.remove_circuit_data(Host(A))
        c.sent = []
        mh.__init__(mh.settings)
        got = []
        if watched:
            mh.register(entry[0]).subscribe(got.append)
        for k in range(2):
            d.send_reliable(lib_net.ping(), Host(A), 0)
        d.receive_check(Host(A), buf, len(buf))
        views.append(view(d.find_circuit(Host(A))))
        d.process_acks()
        views.append([list(s) for s in c.sent])
        gots.append(got)
    h.check(h.eq(views[0], views[2]), 'the circuit is the same, ' + what)
    h.check(h.eq(views[1], views[3]), 'the packets sent are the same, ' + what)
    h.check(len(gots[0]) == len(gots[1]) and len(gots[0]) == (1 if watched else 0), 'the same messages are handled, ' + what)
    if watched:
        h.check(g.same(gots[0][0]), 'with the same values, ' + what)


def history(steps, pattern=None):
    ds = []
    for deferred in (True, False):
        st = Settings(quiet_logging=True)
        st.ENABLE_DEFERRED_PACKET_PARSING = deferred
        d, c = lib_net.dispatcher(st)
        got = []
        d.message_handler.register('StartPingCheck').subscribe(lambda m, g=got: g.append(m))
        for k in range(2 if not pattern else steps):
            d.send_reliable(lib_net.ping(), Host(A), 0)
        ds.append((d, c, got))
    for k in range(steps):
        if pattern:
            kind, rel = pattern[k % len(pattern)]
            pid, a = (h.int('pid', 0, 0xffff0000) if k == 0 else pid + 1), k // len(pattern)
        else:
            kind = h.choice('kind', ['watched', 'unwatched', 'with acks', 'packetack'])
            pid = h.int('pid', 0, 0xffffffff)
            rel = h.choice('reliable', [0, 0x40])
            a = h.int('ack', 0, 3)
        if kind == 'watched':
            p = lib_net.packet(pid, rel)
        elif kind == 'unwatched':
            p = lib_net.packet(pid, rel, 'complete')
        elif kind == 'with acks':
            p = lib_net.packet(pid, rel | 0x10, 'complete', acks=[a])
        else:
            p = lib_net.packet(pid, rel, 'ack', data=[a])
        for d, c, got in ds:
            d.receive_check(Host(A), p, len(p))
    (d, c, g), (e, f, k) = ds
    h.check(h.eq(view(d.find_circuit(Host(A))), view(e.find_circuit(Host(A)))), 'the circuits are the same after a history')
    h.check([m.name for m in g] == [m.name for m in k], 'and so are the handled messages')
    h.check(h.eq([m.packet_id for m in g], [m.packet_id for m in k]), 'with their ids')
    h.check(d.packets_in == steps and e.packets_in == steps, 'and the packet counters')
    d.process_acks()
    e.process_acks()
    h.check(h.eq([list(s) for s in c.sent], [list(s) for s in f.sent]), 'and the packets sent')


PATTERNS = [[('unwatched', 0x40)], [('watched', 0x40)], [('with acks', 0)], [('packetack', 0x40)],
            [('watched', 0), ('unwatched', 0x40), ('with acks', 0x40), ('packetack', 0), ('unwatched', 0)]]


def cases(tier):
    out = [('history of %d' % n, history, (n,)) for n in range(1, 3 if tier == 'quick' else 4)]
    for i, pattern in enumerate(PATTERNS):
        out.append(('long history %d' % i, history, (120 if tier == 'quick' else 600, pattern)))
    ok = MessageDotXML()
    for k, e in enumerate(lib_ref.ENTRIES):
        if ok.validate_udp_msg(e[0]) and (tier != 'quick' or k % 4 == 0):
            out.append(('any %s' % e[0], full, (e,)))
        out.append(('any flags of %s' % e[0], flags, (e, tier)))
    return out
