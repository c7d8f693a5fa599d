"""C11: a reliable packet is awaited until, and only until, its own ack arrives."""
import h
import lib_ref
import lib_net
import lib_any
from pyogp.lib.base.message.circuit import Host, Circuit
from pyogp.lib.base.message.message import Message
from pyogp.lib.base.message.msgtypes import PackFlags

INFO = dict(
    bounds='histories of up to 4 (quick) or 6 (thorough) operations on a circuit; any ack ids; acks appended to a packet or carried by a '
           'PacketAck, up to 3 at a time; every message of the template received and sent with any flags; messages of any name up to 30 characters; deferred parsing on and off; two dispatchers to one host; 40, 300 and 1100 packets outstanding and up to 250 acks at once',
    outside='longer histories; more acks at a time (C05 covers their decoding)',
    stubs='the UDP client is a stand-in that records what is sent; the message template is a small one',
)
A = ('10.0.0.1', 13000)


def setup():
    lib_any.setup()


def waiting(c):
    return sorted(c.unacked_packets.keys())


def history(steps, deferred):
    from pyogp.lib.base.settings import Settings
    st = Settings(quiet_logging=True)
    st.ENABLE_DEFERRED_PACKET_PARSING = deferred
    d, c = lib_net.dispatcher(st)
    host = Host(A)
    circ = d.find_circuit(host)
    want = []
    sent = 0
    for k in range(steps):
        op = h.choice('op', ['reliable', 'plain', 'appended', 'packetack', 'both'])
        if op == 'reliable':
            sent += 1
            d.send_reliable(lib_net.ping(), host, 0)
            want.append(sent)
        elif op == 'plain':
            sent += 1
            d.send_message(lib_net.complete(), host)
        else:
            n = 1 + k % 2
            ids = [h.int('ack', 0, 0xffffffff) for i in range(n)]
            if op == 'appended':
                p = lib_net.packet(100 + k, 0x10, 'complete', acks=ids)
            elif op == 'both':
                ids.append(h.int('ack', 0, 0xffffffff))
                p = lib_net.packet(100 + k, 0x10, 'ack', data=ids[1:], acks=ids[:1])
            else:
                p = lib_net.packet(100 + k, 0, 'ack', data=ids)
            d.receive_check(host, p, len(p))
            want = [w for w in want if not h.flag(h.or_(*[w == i for i in ids]))]
        h.check(waiting(circ) == want, 'exactly the unacknowledged reliable packets are awaited')
        h.check(circ.unack_packet_count == len(want), 'and counted')
    for w in want:
        h.check(circ.unacked_packets[w].packet_id == w, 'the awaited packet is kept')
    h.observe('want', want)


def wire():
    """the reliable flag travels exactly with reliable packets"""
    d, c = lib_net.dispatcher()
    host = Host(A)
    for k in range(3):
        rel = h.choice('reliable', [False, True])
        if rel:
            d.send_reliable(lib_net.ping(), host, h.int('retries', -1, 300))
        else:
            d.send_message(lib_net.ping(), host)
        h.check(len(c.sent) == k + 1, 'each message is sent')
        s = lib_net.Sent(c.sent[k][0])
        h.check(s.reliable == rel, 'a packet is flagged reliable exactly when asked')


def reused():
    """one message sent several times, each time as asked"""
    d, c = lib_net.dispatcher()
    host = Host(A)
    circ = d.find_circuit(host)
    m = lib_net.ping()
    want = []
    for k in range(3):
        rel = h.choice('reliable', [False, True])
        if rel:
            d.send_reliable(m, host, h.int('retries', -1, 300))
            want.append(k + 1)
        else:
            d.send_message(m, host)
        h.check(lib_net.Sent(c.sent[k][0]).reliable == rel, 'a message that is sent again is flagged as asked')
        h.check(waiting(circ) == want, 'and awaited as asked')


def direct():
    """the circuit's own interface"""
    c = Circuit(Host(A), 0)
    ms = []
    for k in range(3):
        m = lib_net.ping()
        c.prepare_packet(m, PackFlags.LL_RELIABLE_FLAG, 2)
        ms.append(m)
        h.check(m.retries == 2, 'the retries are kept')
    i = h.int('id', 0, 5)
    c.ack_reliable_packet(i)
    c.ack_reliable_packet(i)
    left = [m.packet_id for m in ms if not h.flag(m.packet_id == i)]
    h.check(waiting(c) == left, 'an ack removes its own packet only, once')
    h.check(c.unack_packet_count == len(left), 'acking twice counts once')


def names(length):
    """messages of any name are awaited, and bring acks"""
    c = Circuit(Host(A), 0)
    c.prepare_packet(lib_net.ping(), PackFlags.LL_RELIABLE_FLAG)
    m = Message(lib_net.any_name(length))
    rel = h.choice('reliable', [False, True])
    c.prepare_packet(m, rel and PackFlags.LL_RELIABLE_FLAG or PackFlags.LL_NONE)
    h.check(waiting(c) == (rel and [1, 2] or [1]), 'a reliable packet of any name is awaited')
    r = Message(m.name)
    r.packet_id = h.int('pid', 0, 0xffffffff)
    r.reliable = h.choice('in reliable', [False, True])
    r.add_ack(1)
    if h.choice('two', [False, True]):
        r.add_ack(2)
    c.handle_packet(r)
    left = [i for i in (rel and [1, 2] or [1]) if i not in r.acks]
    h.check(waiting(c) == left and c.unack_packet_count == len(left), 'acks appended to a packet of any name count')
    h.check(h.eq(list(c.acks), [r.packet_id] if r.reliable else []), 'and it is itself acked as it asks')


def outstanding(n):
    """many packets wait for their acks"""
    d, c = lib_net.dispatcher()
    host = Host(A)
    circ = d.find_circuit(host)
    for k in range(n):
        d.send_reliable(lib_net.ping(k & 255), host, 3)
    h.check(waiting(circ) == range(1, n + 1) and circ.unack_packet_count == n, 'every unacknowledged packet is awaited, however many')
    i = h.int('ack', n + 1, 0xffffffff) if n > 60 else h.int('ack', 1, n)
    ids = [k for k in range(1, n) if k % 7 != 3]
    ids = ids[:125] + ids[max(125, len(ids) - 125):]
    how = h.choice('how', ['appended', 'packetack', 'two'])
    if how == 'two':
        ps = [lib_net.packet(900, 0x10, 'complete', acks=[i] + ids[:min(n, 300) // 3]), lib_net.packet(901, 0, 'ack', data=ids[min(n, 300) // 3:])]
    elif how == 'appended':
        ps = [lib_net.packet(900, 0x10, 'complete', acks=ids + [i])]
    else:
        ps = [lib_net.packet(900, 0, 'ack', data=ids + [i])]
    for p in ps:
        d.receive_check(host, p, len(p))
    left = [k for k in range(1, n + 1) if k not in ids and not h.flag(i == k)]
    h.check(waiting(circ) == left and circ.unack_packet_count == len(left), 'acks remove exactly their packets, however many')


def any_message(entry, tier):
    """any message received or sent, with any flags"""
    pick = lib_any.Picker(entry, tier)
    d, c = lib_any.dispatcher(0, pick.choice('deferred', [True, False]))
    host = Host(A)
    circ = d.find_circuit(host)
    for k in range(2):
        d.send_reliable(lib_net.ping(), host, 0)
    p = lib_any.Packet(pick, entry, (0, 3))
    d.receive_check(host, p.wire, len(p.wire))
    want = [i for i in (1, 2) if not p.acks or not h.flag(p.acks[0] == i)]
    h.check(waiting(circ) == want and circ.unack_packet_count == len(want), 'acks appended to any message count, and nothing else it brings')
    m = lib_any.message(entry)
    rel = pick.choice('reliably', [True, False])
    if rel:
        d.send_reliable(m, host, 0)
    else:
        d.send_message(m, host)
    h.check(len(c.sent) == 3 and h.flag(((ord(c.sent[2][0][0]) & 0x40) != 0) == rel), 'any message is flagged reliable exactly when asked')
    h.check(waiting(circ) == want + (rel and [3] or []), 'and awaited')


def side_by_side(steps):
    """two dispatchers that talk to the same host track their packets each for itself"""
    for circ, sent, n, received, outstanding in lib_net.side_by_side(steps):
        h.check(h.eq(sorted(circ.unacked_packets), outstanding), 'each dispatcher tracks its own packets')
        h.check(circ.unack_packet_count == len(outstanding), 'and counts them')


def cases(tier):
    out = [('any %s' % e[0], any_message, (e, tier)) for e in lib_ref.ENTRIES if lib_ref.may_travel(e)]
    out += [('wire', wire), ('reused', reused), ('direct', direct)] + [('%d outstanding' % n, outstanding, (n,)) for n in (40, 300, 1100)]
    for n in (1, 5, 9, 13, 20, 30) if tier == 'quick' else range(1, 32):
        out.append(('name %d' % n, names, (n,)))
    out.append(('names of the template', names, (0,)))
    for n in range(1, 5 if tier == 'quick' else 7):
        out.append(('history of %d' % n, history, (n, False)))
        if n < 4 or tier != 'quick':
            out.append(('history of %d, deferred parsing' % n, history, (n, True)))
    out += [('side by side, %d' % n, side_by_side, (n,)) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    return out
