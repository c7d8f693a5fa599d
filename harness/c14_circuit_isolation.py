"""C14: each host has its own circuit; traffic with one leaves the others alone."""
import h
import lib_ref
import lib_net
import lib_any
from pyogp.lib.base.message.circuit import Host, Circuit, CircuitManager
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='any two addresses of up to 4 characters and any ports; histories of up to 3 (quick) or 4 (thorough) operations on two hosts '
           'compared with the same history without the other host; two packets of each of 60 and of 300 hosts; two dispatchers to one host; every message of the template received from and sent to another host, with any flags',
    outside='longer histories and addresses',
    stubs='the UDP client is a stand-in that records what is sent; the message template is a small one',
)


def setup():
    lib_any.setup()


def addresses():
    i, j = h.bytes('ip1', 4), h.bytes('ip2', 4)
    p, q = h.int('port1', 1, 65535), h.int('port2', 1, 65535)
    cm = CircuitManager()
    x, y = Host((i, p)), Host((j, q))
    h.check(cm.get_circuit(x) is None, 'an unknown host has no circuit')
    h.check(not cm.is_circuit_alive(x), 'and is not alive')
    a = cm.add_circuit(x, 5)
    h.check(a.host is x and a.last_packet_in_id == 5, 'a circuit knows its host')
    same = h.and_(i == j, p == q)
    if h.flag(same):
        h.check(cm.get_circuit(y) is a, 'address and port identify the circuit')
        h.check(cm.is_circuit_alive(y), 'which is alive')
    else:
        h.check(cm.get_circuit(y) is None, 'another address or port has no circuit')
        h.check(not cm.is_circuit_alive(y), 'and is not alive')
        b = cm.add_circuit(y, 6)
        h.check(b is not a, 'it gets another circuit')
        h.check(cm.get_circuit(y) is b and cm.get_circuit(x) is a, 'each host keeps its own')
        cm.remove_circuit_data(y)
        h.check(cm.get_circuit(y) is None, 'removal forgets the circuit')
        h.check(cm.get_circuit(x) is a, 'but no other')
        cm.remove_circuit_data(y)
    b = Circuit(Host(('z', 1)), 1)
    h.check(b.acks is not a.acks and b.unacked_packets is not a.unacked_packets, 'circuits share no state')


def view(c):
    return [c.last_packet_out_id, list(c.acks), sorted(c.unacked_packets.keys()), c.unack_packet_count,
            sorted(getattr(c, 'final_retry_packets', {}).keys()), getattr(c, 'is_alive', None)]


def act(d, op, host, pid, n):
    if op == 'send':
        d.send_message(lib_net.complete(n), host)
    elif op == 'reliable':
        d.send_reliable(lib_net.ping(n), host, 0)
    elif op == 'receive':
        p = lib_net.packet(pid, 0x40)
        d.receive_check(host, p, len(p))
    elif op == 'ack':
        p = lib_net.packet(50 + n, 0x10, 'complete', acks=[pid])
        d.receive_check(host, p, len(p))
    else:
        d.process_acks()


def history(steps, addrs):
    A, B = addrs
    d, c = lib_net.dispatcher()
    e, f = lib_net.dispatcher()
    d.find_circuit(Host(A))
    e.find_circuit(Host(A))
    rounds = 0
    for k in range(steps):
        op = h.choice('op', ['send', 'reliable', 'receive', 'ack', 'round'])
        pid = h.int('pid', 0, 4)
        who = h.choice('host', [A, B])
        act(d, op, Host(who), pid, k)
        if who == A or op == 'round':
            act(e, op, Host(who), pid, k)
    x, y = d.find_circuit(Host(A)), e.find_circuit(Host(A))
    h.check(h.eq(view(x), view(y)), 'the circuit of a host is as if there were no other')
    mine = [s for s in c.sent if s[1:] == A]
    h.check(h.eq([s[0] for s in mine], [s[0] for s in f.sent]), 'and so are the packets sent to it')
    h.observe('sent', [list(s) for s in c.sent])


def senders():
    """every datagram goes to the circuit of its own sender, whatever came before"""
    from pyogp.lib.base.network.net import NetUDPClient
    pids = [h.int('pid', 1, 0xffffffff) for k in range(4)]
    froms = [h.choice('from', [('10.0.0.1', 1), ('10.0.0.1', 2), ('10.0.0.2', 1)]) for k in range(4)]

    class Sock(object):
        def __init__(self):
            self.n = 0
            self.sent = []

        def recvfrom(self, size):
            self.n += 1
            return lib_net.packet(pids[self.n - 1], 0x40), froms[self.n - 1]

        def sendto(self, buf, addr):
            self.sent.append((buf, addr))
            return len(buf)
    sock = Sock()
    h.patch_lib('socket', 'socket', lambda *a: sock)
    from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
    st = Settings(quiet_logging=True)
    from pyogp.lib.base.message.message_dot_xml import MessageDotXML
    if 'x' not in lib_net.XML:
        lib_net.XML['x'] = MessageDotXML()
    d = UDPDispatcher(NetUDPClient(), st, lib_ref.AllHandled(), message_template=h.templfile(lib_net.TEMPLATE), message_xml=lib_net.XML['x'])
    for k in range(4):
        buf, size = d.udp_client.receive_packet(d.socket)
        d.receive_check(d.udp_client.get_sender(), buf, size)
    d.process_acks()
    for w in (('10.0.0.1', 1), ('10.0.0.1', 2), ('10.0.0.2', 1)):
        want = [p for p, f in zip(pids, froms) if f == w]
        got = []
        for buf, addr in sock.sent:
            if addr == w:
                got.extend(lib_net.Sent(buf).ids)
        h.check(lib_net.same_ids(got, want), 'each sender gets the acks of its own packets')


def hosts(n):
    """many hosts"""
    d, c = lib_net.dispatcher()
    port = h.int('port', 1, 60000)
    pid = h.int('pid', 1, 0xffff0000)
    addrs = [('10.0.%d.%d' % (k % 3, k // 6), port + k % 2) for k in range(n)]
    for r in range(2):
        for k, a in enumerate(addrs):
            d.send_reliable(lib_net.ping(k & 255), Host(a), 0)
            p = lib_net.packet(pid + k + n * r, 0x40)
            d.receive_check(Host(a), p, len(p))
    c.sent = []
    d.process_acks()
    got = dict([((ip, h.realise(pt - port)), lib_net.Sent(b).ids) for b, ip, pt in c.sent])
    h.check(len(c.sent) == n, 'every host gets its acks')
    h.check(h.eq([got.get((a[0], k % 2)) for k, a in enumerate(addrs)], [[pid + k, pid + k + n] for k in range(n)]), 'each its own')
    h.check(h.and_(*[h.eq(sorted(d.find_circuit(Host(a)).unacked_packets), [1, 2]) for a in addrs]), 'and has its own packets outstanding')


def any_message(entry, tier):
    """any message exchanged with another host"""
    pick = lib_any.Picker(entry, tier)
    d, c = lib_any.dispatcher(0, pick.choice('deferred', [True, False]))
    A, B = Host(('10.0.0.1', 13000)), pick.choice('other', [Host(('10.0.0.1', 13001)), Host(('10.0.0.2', 13000))])
    p = lib_any.Packet(pick, entry, (1, 2))
    d.send_reliable(lib_net.ping(), A, 0)
    d.send_reliable(lib_net.ping(), B, 0)
    q = lib_net.packet(77, 0x40)
    d.receive_check(A, q, len(q))
    circ = d.find_circuit(A)
    before = view(circ)
    d.receive_check(B, p.wire, len(p.wire))
    if lib_any.S['allowed'][entry[0]]:
        m = lib_any.message(entry)
        d.send_reliable(m, B, 0)
    h.check(d.find_circuit(A) is circ and h.eq(view(circ), before), 'whatever is exchanged with another host, the circuit stays')
    h.check(len([s for s in c.sent if s[1:] == (A.ip, A.port)]) == 1, 'and nothing is sent to its host')
    d.process_acks()
    h.check([lib_net.Sent(s[0]).ids for s in c.sent if s[1:] == (A.ip, A.port)] == [None, [77]], 'but its own acks')


def side_by_side(steps):
    """two dispatchers that talk to the same host share no circuit"""
    one, two = lib_net.side_by_side(steps)
    h.check(one[0] is None or one[0] is not two[0], 'dispatchers share no circuits')
    for circ, sent, n, received, outstanding in one, two:
        h.check(len([s for s in sent if s.ids is None]) == n, 'each sends what it was asked to')
        got = []
        for s in sent:
            got += s.ids or []
        h.check(lib_net.same_ids(got, received), 'acknowledges what it received')
        h.check(h.eq(sorted(circ.unacked_packets), outstanding), 'and waits for what it sent')
    cm, other = CircuitManager(), CircuitManager()
    host = Host((h.bytes('ip', 2), h.int('port', 1, 65535)))
    cm.add_circuit(host, 1)
    h.check(other.get_circuit(host) is None and not other.is_circuit_alive(host), 'managers of circuits share none')


def cases(tier):
    out = [('any %s' % e[0], any_message, (e, tier)) for e in lib_ref.ENTRIES]
    out += [('addresses', addresses), ('senders', senders), ('many hosts', hosts, (60,)), ('very many hosts', hosts, (300,))]
    two = [(('10.0.0.1', 13000), ('10.0.0.2', 13000)), (('10.0.0.1', 13000), ('10.0.0.1', 13001))]
    for n in range(1, 4 if tier == 'quick' else 5):
        for k, a in enumerate(two):
            if n < 3 or tier != 'quick' or k == 1:
                out.append(('history of %d, hosts %d' % (n, k), history, (n, a)))
    out += [('side by side, %d' % n, side_by_side, (n,)) for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4))]
    return out
