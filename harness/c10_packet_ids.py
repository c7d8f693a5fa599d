"""C10: every packet sent to a host has the next packet id of that host's circuit."""
import h
import lib_ref
import lib_net
import lib_any
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.circuit import Host, Circuit, CircuitManager
from pyogp.lib.base.message.msgtypes import PackFlags

INFO = dict(
    bounds='histories of up to 4 (quick) or 6 (thorough) operations: send, send reliably, send again the same message (as a new one or flagged as resent), receive, receive '
           'reliably, send acks, to one of two hosts, starting from any last packet id; every message of the template received and sent with any flags; two dispatchers to one host, 3 (thorough: 4) operations; six patterns of 300 (thorough: 1100) operations',
    outside='ids beyond 2^31-1; packets that fail to serialize',
    stubs='the UDP client is a stand-in that records what is sent; the message template is a small one',
)
A, B = ('10.0.0.1', 13000), ('10.0.0.2', 13000)


def setup():
    lib_any.setup()


def history(steps):
    d, c = lib_net.dispatcher()
    start = h.int('start', 0, 0x7fff0000)
    last = {A: start, B: 0}
    d.find_circuit(Host(A)).last_packet_out_id = start
    again = lib_net.ping()
    n_in = 0
    for k in range(steps):
        op = h.choice('op', ['send', 'reliable', 'again', 'retry', 'receive', 'acks'])
        who = A
        if k % 2:
            who = h.choice('host', [A, B])
        host = Host(who)
        if op == 'send':
            d.send_message(lib_net.complete(k), host)
        elif op == 'reliable':
            d.send_reliable(lib_net.ping(k), host, 0)
        elif op == 'again':
            d.send_message(again, host)
        elif op == 'retry':
            d.send_retry(again, host)
        elif op == 'receive':
            n_in += 1
            p = lib_net.packet(n_in, 0x40)
            d.receive_check(host, p, len(p))
        else:
            d.process_acks()
        for buf, ip, port in c.sent:
            s = lib_net.Sent(buf)
            h.check(s.pid == last[(ip, port)] + 1, 'each packet has the next id of its circuit')
            last[(ip, port)] = s.pid
        c.sent = []


def circuit():
    """the circuit itself"""
    c = Circuit(Host(A), 1)
    h.check(c.next_packet_id() == 1, 'the first packet has id 1')
    s = h.int('start', 0, 0x7ffffff0)
    c.last_packet_out_id = s
    seen = []
    for k in range(3):
        fl = h.choice('flag', [PackFlags.LL_NONE, PackFlags.LL_RELIABLE_FLAG, PackFlags.LL_RESENT_FLAG])
        m = lib_net.ping()
        c.prepare_packet(m, fl)
        seen.append(m.packet_id)
        h.check(m.send_flags == fl, 'the packet has the wanted flag')
    h.check(h.eq(seen, [s + 1, s + 2, s + 3]), 'ids count up by one')
    h.check(h.and_(c.last_packet_out_id == s + 3), 'the circuit remembers the last id')


def names(length):
    """the name of a message does not matter"""
    c = Circuit(Host(A), 1)
    s = h.int('start', 0, 0x7ffffff0)
    c.last_packet_out_id = s
    if h.choice('pending', [False, True]):
        c.collect_ack(h.int('ack', 0, 0xffffffff))
    fl = h.choice('flag', [PackFlags.LL_NONE, PackFlags.LL_RELIABLE_FLAG, PackFlags.LL_RESENT_FLAG])
    ms = [Message(lib_net.any_name(length)), Message('PacketAck', Block('Packets', ID=h.int('ack', 0, 9))), Message('CloseCircuit')]
    for m in ms:
        c.prepare_packet(m, fl)
    h.check(h.eq([m.packet_id for m in ms], [s + 1, s + 2, s + 3]), 'packets of any name have the next ids')


def long(n):
    """long histories of one pattern"""
    d, c = lib_net.dispatcher()
    start = h.int('start', 0, 0x7fff0000)
    host = Host(A)
    d.find_circuit(host).last_packet_out_id = start
    what = h.choice('what', [('send',), ('reliable',), ('send', 'again'), ('reliable', 'receive', 'acks'), ('receive', 'receive', 'send'), ('retry', 'other')])
    again = lib_net.ping()
    pid = h.int('pid', 0, 0xffff0000)
    for k in range(n):
        op = what[k % len(what)]
        if op == 'send':
            d.send_message(lib_net.complete(k & 255), host)
        elif op == 'reliable':
            d.send_reliable(lib_net.ping(k & 255), host, 3)
        elif op == 'again':
            d.send_message(again, host)
        elif op == 'retry':
            d.send_retry(again, host)
        elif op == 'other':
            d.send_message(lib_net.ping(), Host((B[0], B[1] + k)))
        elif op == 'receive':
            p = lib_net.packet(pid + k, 0x40)
            d.receive_check(host, p, len(p))
        else:
            d.process_acks()
    got, others = [], []
    for buf, ip, port in c.sent:
        (got if (ip, port) == A else others).append(lib_net.unbe(buf[1:5]))
    h.check(h.eq(got, [start + 1 + k for k in range(len(got))]), 'ids count up by one, however many packets')
    h.check(h.eq(others, [1] * len(others)), 'and from one for each new host')


def any_message(entry, tier):
    """any message received or sent, with any flags"""
    pick = lib_any.Picker(entry, tier)
    d, c = lib_any.dispatcher(0, pick.choice('deferred', [True, False]))
    start = h.int('start', 0, 0x7fff0000)
    host = Host(A)
    d.find_circuit(host).last_packet_out_id = start
    d.send_message(lib_net.ping(), host)
    p = lib_any.Packet(pick, entry, (0, 3))
    d.receive_check(host, p.wire, len(p.wire))
    if lib_any.S['allowed'][entry[0]]:
        m = lib_any.message(entry)
        if pick.choice('reliably', [True, False]):
            d.send_reliable(m, host, 0)
        else:
            d.send_message(m, host)
        h.check(h.eq(m.packet_id, lib_net.unbe(c.sent[-1][0][1:5])), 'the id in the packet is the one in its message')
    d.receive_check(host, p.wire, len(p.wire))
    d.process_acks()
    d.send_message(lib_net.ping(), host)
    h.check(h.eq([lib_net.unbe(s[0][1:5]) for s in c.sent], [start + 1 + k for k in range(len(c.sent))]), 'whatever is received or sent, the ids count up')


def side_by_side(steps):
    """two dispatchers that talk to the same host number their packets each for itself"""
    for circ, sent, n, received, outstanding in lib_net.side_by_side(steps):
        h.check([h.realise(s.pid) for s in sent] == range(1, len(sent) + 1), 'each dispatcher numbers its packets for itself')
        h.check(len([s for s in sent if s.ids is None]) == n, 'and sends its own')


def cases(tier):
    out = [('any %s' % e[0], any_message, (e, tier)) for e in lib_ref.ENTRIES]
    out += [('circuit', circuit)] + [('%d operations' % n, long, (n,)) for n in ((300,) if tier == 'quick' else (300, 1100))]
    for n in (0, 1, 5, 9, 13, 20, 30) if tier == 'quick' else range(32):
        out.append(('name %d' % n, names, (n,)))
    for n in range(1, 5 if tier == 'quick' else 7):
        out.append(('history of %d' % n, history, (n,)))
    out += [('side by side, %d' % n, side_by_side, (n,)) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    return out
