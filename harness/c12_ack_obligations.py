"""C12: every reliable packet received is acknowledged to its sender, and nothing else is."""
import h
import lib_ref
import lib_net
import lib_any
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='histories of up to 3 (quick) or 4 (thorough) receptions and sends from two hosts with any packet ids, then the ack round, or a round after each reception; 0 to '
           '260, around 500 and 1100 pending acks; every message of the template with any flags, plain and zero-coded; deferred parsing on and off, watched and unwatched messages; two dispatchers to one host',
    outside='longer histories',
    stubs='the UDP client is a stand-in that records what is sent; the message template is a small one',
)
A, B = ('10.0.0.1', 13000), ('10.0.0.1', 13001)


def setup():
    lib_any.setup()


def acked(c, who):
    """(ids in PacketAcks, appended ids) sent to a host"""
    main, tail = [], []
    for buf, ip, port in c.sent:
        if (ip, port) != who:
            continue
        s = lib_net.Sent(buf)
        tail.extend(s.acks)
        if s.ids is not None:
            h.check(len(s.ids) >= 1 and len(s.ids) <= 255, 'a PacketAck has between one and 255 ids')
            h.check(not s.reliable, 'acks are not sent reliably')
            main.extend(s.ids)
    return main, tail


def history(steps, deferred, watched):
    st = Settings(quiet_logging=True)
    st.ENABLE_DEFERRED_PACKET_PARSING = deferred
    d, c = lib_net.dispatcher(st)
    if watched:
        d.message_handler.register('StartPingCheck').subscribe(lambda m: None)
    due = {A: [], B: []}
    for k in range(steps):
        op = h.choice('op', ['reliable', 'plain', 'send'])
        who = h.choice('host', [A, B])
        if op == 'send':
            d.send_message(lib_net.complete(), Host(who))
            continue
        pid = h.int('pid', 0, 0xffffffff)
        if op == 'reliable':
            p = lib_net.packet(pid, 0x40 | h.choice('more flags', [0, 0x20, 0x0f]))
            due[who].append(pid)
        else:
            p = lib_net.packet(pid, h.choice('more flags', [0, 0x20, 0x0f]))
        d.receive_check(Host(who), p, len(p))
    h.check(d.has_unacked() == (len(due[A]) + len(due[B]) > 0), 'pending acks are reported')
    d.process_acks()
    h.check(not d.has_unacked(), 'none is pending after the round')
    for who in (A, B):
        main, tail = acked(c, who)
        h.check(lib_net.same_ids(main, due[who]), 'exactly the reliable packets of a host are acked to it')
        for t in tail:
            h.check(h.or_(*[t == x for x in due[who]]), 'appended acks are of received packets')
    n = len(c.sent)
    d.process_acks()
    h.check(len(c.sent) == n, 'an ack is not sent in another round')


def rounds(n, watched):
    """an ack round after every reception; a packet may arrive again"""
    st = Settings(quiet_logging=True)
    d, c = lib_net.dispatcher(st)
    if watched:
        d.message_handler.register('StartPingCheck').subscribe(lambda m: None)
    for k in range(n):
        who = h.choice('host', [A, B])
        pid = h.int('pid', 0, 0xffffffff)
        reliable = h.choice('reliable', [True, False])
        p = lib_net.packet(pid, (0x40 if reliable else 0) | h.choice('more flags', [0, 0x20]))
        c.sent = []
        d.receive_check(Host(who), p, len(p))
        h.check(d.has_unacked() == reliable, 'only a reliable packet makes an ack pending')
        d.process_acks()
        main, tail = acked(c, who)
        h.check(lib_net.same_ids(main, [pid] if reliable else []), 'a reliable packet is acked whenever it is received')
        h.check(tail == [], 'with nothing appended')
        other = acked(c, B if who == A else A)
        h.check(other == ([], []), 'to nobody else')
        h.check(not d.has_unacked(), 'none is pending after each round')


def sending_handler(n):
    """a handler of sent messages that itself sends, also to new hosts, while acks are sent"""
    st = Settings(quiet_logging=True)
    st.HANDLE_OUTGOING_PACKETS = True
    d, c = lib_net.dispatcher(st)
    others = [('10.9.9.%d' % k, 1) for k in range(3 * n)]
    target = h.choice('target', ['new', 'same', 'first'])
    left = list(others)

    def f(m):
        if left:
            w = left.pop()
            d.send_message(lib_net.ping(), Host(w if target == 'new' else A))
    d.message_handler.register('PacketAck').subscribe(f)
    due = {}
    for k in range(n):
        who = ('10.0.0.%d' % k, 13000)
        due[who] = [h.int('pid', 0, 0xffffffff) for j in range(h.choice('packets', [0, 1, 2]) if k < 2 else 1)]
        d.find_circuit(Host(who))
        for i in due[who]:
            p = lib_net.packet(i, 0x40)
            d.receive_check(Host(who), p, len(p))
    d.process_acks()
    for who in due:
        h.check(h.eq(acked(c, who)[0], due[who]), 'acks are sent whatever the handlers of sent messages send')
    h.check(not d.has_unacked(), 'and none is left')
    c.sent = []
    d.process_acks()
    h.check(c.sent == [], 'or repeated')


def many(n):
    st = Settings(quiet_logging=True)
    d, c = lib_net.dispatcher(st)
    v = h.int('pid', 0x10000, 0xffffffff)
    want = []
    circ = d.find_circuit(Host(A))
    for k in range(n):
        i = v if k == n - 1 else k + 1
        p = lib_net.packet(i, 0x40)
        d.receive_check(Host(A), p, len(p))
        want.append(i)
    d.send_message(lib_net.complete(), Host(A))
    main, tail = acked(c, A)
    h.check(main == [], 'nothing is acked on its own before the round')
    h.check(h.eq(tail, want[:255]), 'a packet takes as many pending acks along as fit')
    c.sent = []
    d.process_acks()
    main, tail = acked(c, A)
    h.check(h.eq(main, want), 'all pending acks are sent')
    h.check(tail == [], 'PacketAcks carry no appended acks')
    c.sent = []
    d.send_message(lib_net.complete(), Host(A))
    main, tail = acked(c, A)
    h.check(main == [] and tail == [], 'and are not repeated')
    c.sent = []
    for i in (1, n // 2 + 1, n):
        p = lib_net.packet(want[i - 1], 0x60)
        d.receive_check(Host(A), p, len(p))
    d.process_acks()
    main, tail = acked(c, A)
    h.check(lib_net.same_ids(main, [want[0], want[n // 2], want[n - 1]]), 'packets that arrive once more are acked once more')


def any_message(entry, tier):
    """any message, with any flags, plain or zero-coded"""
    pick = lib_any.Picker(entry, tier)
    d, c = lib_any.dispatcher(0, pick.choice('deferred', [True, False]))
    if pick.choice('watched', [True, False]):
        d.message_handler.register(entry[0]).subscribe(lambda m: None)
    d.find_circuit(Host(B))
    p = lib_any.Packet(pick, entry, (0, 3))
    d.receive_check(Host(A), p.wire, len(p.wire))
    want = [p.pid] if p.reliable else []
    if lib_any.S['allowed'][entry[0]] and pick.choice('answer', [True, False]):
        m = lib_any.message(entry)
        d.send_message(m, Host(A))
        main, tail = acked(c, A)
        if entry[0] != 'PacketAck':
            h.check(main == [] and h.eq(tail, want), 'any message takes the pending acks along')
        c.sent = []
    d.process_acks()
    main, tail = acked(c, A)
    h.check(h.eq(main, want) and tail == [], 'a reliable packet with any message is acked')
    h.check(acked(c, B) == ([], []), 'to its sender only')


def side_by_side(steps):
    """two dispatchers that talk to the same host acknowledge each what it received"""
    for circ, sent, n, received, outstanding in lib_net.side_by_side(steps):
        got = []
        for s in sent:
            got += s.ids or []
            got += s.acks
        for x in received:
            h.check(h.or_(*[x == y for y in got]), 'each dispatcher acknowledges what it received itself')
        for y in got:
            h.check(h.or_(*[x == y for x in received]), 'and nothing else')


def cases(tier):
    out = [('any %s' % e[0], any_message, (e, tier)) for e in lib_ref.ENTRIES]
    for n in range(1, 4 if tier == 'quick' else 5):
        for deferred in (True, False):
            for watched in (True, False):
                if n == 3 and tier == 'quick' and deferred == watched:
                    continue
                out.append(('history of %d, deferred %s, watched %s' % (n, deferred, watched), history, (n, deferred, watched)))
    for n in range(2, 4 if tier == 'quick' else 5):
        for watched in (True, False):
            out.append(('%d rounds, watched %s' % (n, watched), rounds, (n, watched)))
    for n in (1, 2, 3):
        out.append(('sending handler, %d hosts' % n, sending_handler, (n,)))
    for n in (1, 2, 250, 251, 252, 253, 254, 255, 256, 260, 500, 502, 503, 510, 1100):
        if tier != 'quick' or n in (1, 251, 252, 255, 256, 502, 503, 1100):
            out.append(('%d pending' % n, many, (n,)))
    out += [('side by side, %d' % n, side_by_side, (n,)) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    return out
