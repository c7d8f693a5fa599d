"""C13: an unacknowledged reliable packet is sent again, an acknowledged one is not."""
import h
import lib_ref
import lib_net
from pyogp.lib.base.message.circuit import Host

INFO = dict(
    bounds='one to three reliable packets with 0 to 2 retries, any of them acknowledged, then up to 3 ack rounds; packets sent again by the caller with up to 2 acks due',
    outside='timing: the code has no retransmission timer',
    stubs='the UDP client is a stand-in that records what is sent; the message template is a small one',
)
A = ('10.0.0.1', 13000)


def unacknowledged(retries):
    d, c = lib_net.dispatcher()
    d.send_reliable(lib_net.ping(), Host(A), retries)
    first = c.sent[0][0]
    c.sent = []
    d.process_acks()
    h.check(len(c.sent) == 1, 'an unacknowledged packet is sent again')
    s = lib_net.Sent(c.sent[0][0])
    h.check(s.flags & 0x20 != 0, 'flagged as sent again')
    h.check(s.body == lib_net.Sent(first).body, 'with the same contents')


def acknowledged(n, rounds):
    d, c = lib_net.dispatcher()
    for k in range(n):
        d.send_reliable(lib_net.ping(k), Host(A), h.choice('retries', [0, 1, 2]))
    ids = [h.int('ack', 0, 0xffffffff) for k in range(n)]
    h.assume(h.and_(*[h.or_(*[i == k + 1 for i in ids]) for k in range(n)]))
    how = h.choice('how', ['appended', 'packetack'])
    if how == 'appended':
        p = lib_net.packet(9, 0x10, 'complete', acks=ids)
    else:
        p = lib_net.packet(9, 0, 'ack', data=ids)
    d.receive_check(Host(A), p, len(p))
    c.sent = []
    for k in range(rounds):
        d.process_acks()
    h.check(c.sent == [], 'an acknowledged packet is not sent again')


def by_hand(pending):
    """a packet sent again by the caller"""
    d, c = lib_net.dispatcher()
    v = h.int('v', 0, 255)
    m = lib_net.ping(v)
    if h.choice('first', ['reliable', 'plain']) == 'reliable':
        d.send_reliable(m, Host(A), 1)
    else:
        d.send_message(m, Host(A))
    ids = []
    for k in range(pending):
        ids.append(h.int('pid', 0, 0xffffffff))
        p = lib_net.packet(ids[-1], 0x40)
        d.receive_check(Host(A), p, len(p))
    kept = dict(d.find_circuit(Host(A)).unacked_packets)
    r = d.send_retry(m, Host(A))
    h.check(len(c.sent) == 2, 'a packet sent again is sent')
    h.check(h.eq(r, c.sent[1][0]) and c.sent[1][1:] == A, 'to its host')
    one, two = lib_net.Sent(c.sent[0][0]), lib_net.Sent(c.sent[1][0])
    h.check(two.flags & 0x20 != 0, 'flagged as sent again')
    h.check(one.flags & 0x20 == 0, 'which the first one was not')
    h.check(h.eq(two.body, one.body), 'with the same contents')
    h.check(h.eq(two.acks, ids), 'and the acks that are due')
    h.check(sorted(d.find_circuit(Host(A)).unacked_packets) == sorted(kept), 'what is awaited stays awaited')


def unreliable():
    d, c = lib_net.dispatcher()
    d.send_message(lib_net.ping(), Host(A))
    c.sent = []
    d.process_acks()
    d.process_acks()
    h.check(c.sent == [], 'a packet that was not sent reliably is not sent again')


def others():
    """ack rounds go on with unacknowledged packets around"""
    d, c = lib_net.dispatcher()
    d.send_reliable(lib_net.ping(), Host(A), h.choice('retries', [0, 1, 2]))
    pid = h.int('pid', 0, 0xffffffff)
    c.sent = []
    p = lib_net.packet(pid, 0x40)
    d.receive_check(Host(A), p, len(p))
    d.process_acks()
    got = []
    for buf, ip, port in c.sent:
        s = lib_net.Sent(buf)
        if s.ids is not None:
            got.extend(s.ids)
    h.check(h.eq(got, [pid]), 'acks are sent while packets of ours are unacknowledged')


def cases(tier):
    out = [('unacknowledged, %d retries' % r, unacknowledged, (r,)) for r in (0, 1, 2)]
    for n in (1, 2, 3):
        out.append(('%d acknowledged' % n, acknowledged, (n, 3)))
    out += [('by hand, %d acks due' % n, by_hand, (n,)) for n in (0, 1, 2)]
    out += [('unreliable', unreliable), ('others', others)]
    return out
