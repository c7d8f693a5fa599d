"""C22: the message manager sends every queued message once, in order, and its loops end when it is stopped."""
import h
import lib_net
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='every history of up to 3 (quick) or 5 (thorough) rounds in which up to 2 messages (from 3 rounds on, and in quick from 2 on: 1) are queued (normal or urgent, reliable or not, any '
           'field values) while a packet, nothing or an error is received; messages queued by handlers during a round; the manager is stopped '
           'before its coroutines start, or in any round, by the receiver or by a handler; one history of 120 rounds with up to 300 messages in one; the same message queued again; malformed packets of five kinds; two managers side by side',
    outside='real coroutines: spawned functions are called one after the other and sleeping returns at once',
    stubs='the socket plays the datagrams and records what is sent; eventlet sleep and spawn record their calls',
)
HOST = ('127.0.0.1', 9)
# a packet that ends within its header
GARBAGE = '\x40\0\0\0\x09'
S = {}


class Socket(object):
    """plays a script of functions, each returning a datagram or None; stops the manager at the end"""
    def __init__(self):
        self.script = []
        self.sent = []
        self.manager = None

    def recvfrom(self, size):
        if not self.script:
            if self.manager._is_running:
                self.manager.stop_monitors()
            raise Exception('timed out')
        r = self.script.pop(0)()
        if r is None:
            raise Exception('timed out')
        return r, HOST

    def sendto(self, buf, addr):
        self.sent.append((buf, addr))
        return len(buf)


def run(m):
    """the UDP loop until it is stopped"""
    S['spawned'] = []
    m.start_monitors()
    loop = S['spawned'][0][0]
    S['spawned'] = []
    loop()


class Cap(object):
    name = 'EventQueueGet'

    def __init__(self):
        self.posted = []
        self.client = None
        self.rounds = 1

    def POST(self, data):
        self.posted.append(dict(data))
        self.rounds -= 1
        if self.rounds <= 0:
            self.client.stopped = True
        return None


def setup():
    from pyogp.lib.base.message.message_dot_xml import MessageDotXML
    S['xml'] = MessageDotXML()


def manager(settings=None, caps=None, start=False, handler=None, host=HOST):
    sock = Socket()
    h.patch_lib('socket', 'socket', lambda *a: sock)
    S['spawned'] = []
    h.patch_lib('eventlet.api', 'sleep', lambda *a: None)
    h.patch_lib('eventlet.api', 'spawn', lambda f, *a, **k: S['spawned'].append((f, a)))
    st = settings or Settings(quiet_logging=True)
    k = {}
    if caps:
        k['capabilities'] = caps
    m = MessageManager(Host(host), handler or MessageHandler(st), settings=st, start_monitors=start,
                       message_template=h.templfile(lib_net.TEMPLATE), **k)
    sock.manager = m
    return m, sock


def message(n):
    return Message('StartPingCheck', Block('PingID', PingID=n, OldestUnacked=n))


def sent(sock, host=HOST):
    out = []
    for buf, addr in sock.sent:
        h.check(addr == host, 'everything goes to the host of the manager')
        s = lib_net.Sent(buf)
        if s.ids is None:
            out.append((lib_net.unle(s.body[1:2]), s.reliable, s.pid))
    return out


def history(n, most):
    """rounds of receiving and queueing"""
    m, sock = manager()
    model, order = [], []

    def fill():
        for k in range(h.choice('queued', range(most + 1))):
            v = h.int('v', 0, 255)
            rel = h.choice('reliable', [False, True])
            now = h.choice('now', [False, True])
            m.enqueue_message(message(v), reliable=rel, now=now)
            if now:
                model.insert(0, (v, rel))
            else:
                model.append((v, rel))

    def round(last):
        def f():
            fill()
            order.extend(model)
            del model[:]
            if last:
                m.stop_monitors()
            kind = h.choice('received', ['nothing', 'packet', 'garbage']) if n < 3 else 'nothing'
            if kind == 'packet':
                return lib_net.packet(h.int('pid', 1, 1000), h.choice('flags', [0, 0x40]))
            if kind == 'garbage':
                return GARBAGE
            return None
        return f
    fill()
    sock.script = [round(k == n - 1) for k in range(n)]
    run(m)
    got = sent(sock)
    h.check(len(got) == len(order), 'every queued message is sent once')
    h.check(h.eq([g[0] for g in got], [o[0] for o in order]), 'in the order of the queue')
    h.check([g[1] for g in got] == [o[1] for o in order], 'reliable exactly if it was queued so')
    h.check(m.outgoing_queue == [], 'nothing stays in the queue')
    h.check(sock.script == [], 'the loop went through all rounds')


def waiting():
    """nothing is sent before the loop runs, and queueing starts nothing"""
    m, sock = manager()
    v = [h.int('v', 0, 255), h.int('v', 0, 255)]
    rel = h.choice('reliable', [False, True])
    m.enqueue_message(message(v[0]), rel)
    m.enqueue_message(message(v[1]))
    h.check(sock.sent == [] and S['spawned'] == [], 'queueing sends nothing')
    run(m)
    h.check(h.eq([x[:2] for x in sent(sock)], [(v[0], rel), (v[1], False)]), 'once it runs everything is sent')


def direct():
    """sending at once leaves the queue alone"""
    m, sock = manager()
    v = h.int('v', 0, 255)
    rel = h.choice('reliable', [False, True])
    m.enqueue_message(message(1))
    r = m.send_udp_message(message(v), rel) if h.choice('how', ['position', 'name']) == 'position' else \
        m.send_udp_message(message(v), reliable=rel)
    got = sent(sock)
    h.check(len(got) == 1 and h.flag(got[0][0] == v) and got[0][1] == rel, 'the message is sent at once')
    h.check(h.eq(r, sock.sent[0][0]), 'and its bytes are returned')
    h.check(len(m.outgoing_queue) == 1, 'the queue is left alone')


def from_handler():
    """a handler queues messages while a packet is handled, another one while a message is sent"""
    st = Settings(quiet_logging=True)
    st.HANDLE_OUTGOING_PACKETS = h.choice('outgoing', [False, True])
    m, sock = manager(st)
    now = h.choice('now', [False, True])

    def on_ping(msg):
        v = msg['PingID'][0]['PingID']
        if v == 7:
            m.enqueue_message(message(50), now=now)
        if v == 50:
            m.enqueue_message(Message('CompletePingCheck', Block('PingID', PingID=60)), reliable=True)
    m.message_handler.register('StartPingCheck').subscribe(on_ping)
    m.enqueue_message(message(20))
    sock.script = [lambda: lib_net.packet(1)]
    run(m)
    want = [(50, False), (20, False)] if now else [(20, False), (50, False)]
    if st.HANDLE_OUTGOING_PACKETS:
        want.append((60, True))
    h.check([x[:2] for x in sent(sock)] == want, 'messages queued by handlers are sent in the same round, in order')


def failing():
    """a message that cannot be sent does not stop the others"""
    m, sock = manager()
    bad = h.choice('bad', ['unknown', 'too long', 'text too long', 'wrong value'])
    first, second = h.int('v', 0, 255), h.int('v', 0, 255)
    m.enqueue_message(message(first))
    if bad == 'unknown':
        m.enqueue_message(Message('EstablishAgentCommunication'))
    elif bad == 'too long':
        m.enqueue_message(Message('Blob', Block('Part', Data='x' * 70000)))
    elif bad == 'text too long':
        m.enqueue_message(Message('Blob', Block('Part', Data=u'\xe9' * 65536)))
    else:
        m.enqueue_message(Message('CompletePingCheck', Block('PingID', PingID='text')))
    m.enqueue_message(message(second))
    run(m)
    h.check(h.eq([x[0] for x in sent(sock)], [first, second]), 'the other messages are sent')
    h.check(m.outgoing_queue == [], 'nothing stays in the queue')


def started(how):
    """start and stop of the monitors"""
    st = Settings(quiet_logging=True)
    st.ENABLE_REGION_EVENT_QUEUE = h.choice('enabled', [True, False])
    has = h.choice('capability', [True, False])
    cap = Cap()
    caps = {'EventQueueGet': cap} if has else {'Other': 1}
    start = h.choice('start', ['constructor', 'later'])
    m, sock = manager(st, caps, start == 'constructor')
    if start == 'later':
        h.check(S['spawned'] == [], 'nothing is spawned before the start')
        m.start_monitors()
    h.check((m.event_queue is not None) == has, 'an event queue exists exactly if there is its capability')
    eq = m.event_queue
    want = 2 if has and st.ENABLE_REGION_EVENT_QUEUE else 1
    h.check(len(S['spawned']) == want, 'one coroutine per queue is spawned')
    jobs = S['spawned']
    cap.client = eq
    cap.rounds = 3
    S['spawned'] = []
    if how == 'before':
        m.stop_monitors()
        m.enqueue_message(message(1))
    for f, a in jobs:
        f(*a)
    if how == 'before':
        h.check(sock.sent == [], 'a manager stopped before its coroutines ran sends nothing')
        h.check(cap.posted == [], 'and does not poll')
    else:
        h.check(m._is_running == False, 'the UDP loop runs until it is stopped')
        if want == 2:
            h.check(eq.stopped and not eq._running, 'the event queue as well')
    if has:
        h.check(not eq._running, 'the event queue does not run')
    m.stop_monitors()
    h.check(m._is_running == False, 'stopping again changes nothing')


def stop_polling():
    """stop_monitors while the event queue polls"""
    cap = Cap()
    m, sock = manager(None, {'EventQueueGet': cap}, True)
    n = h.choice('poll', [1, 2, 3])

    def post(data):
        cap.posted.append(dict(data))
        if len(cap.posted) == n:
            m.stop_monitors()
        if len(cap.posted) > n + 1:
            m.event_queue.stopped = True
        return None
    cap.POST = post
    S['spawned'][1][0](*S['spawned'][1][1])
    h.check(len(cap.posted) == n, 'stop_monitors ends the polling')
    h.check(m.event_queue._running == False, 'the event queue does not run any more')


def long(n):
    """many messages and rounds"""
    m, sock = manager()
    v = h.int('v', 0, 100)
    model, order = [], []

    def put(k):
        urgent = k % 3 == 2
        m.enqueue_message(message(v + k % 100), reliable=k % 2 == 1, now=urgent)
        model.insert(0 if urgent else len(model), (v + k % 100, k % 2 == 1))

    def round(k):
        def f():
            for i in range(300 if k == 1 else k % 3):
                put(3 * k + i)
            order.extend(model)
            del model[:]
            if k == n - 1:
                m.stop_monitors()
            return None if k % 4 == 1 else GARBAGE if k % 4 == 2 else lib_net.packet(k + 1, 0x40)
        return f
    for k in range(7):
        put(k)
    sock.script = [round(k) for k in range(n)]
    run(m)
    got = sent(sock)
    h.check(h.eq([g[0] for g in got], [o[0] for o in order]) and [g[1] for g in got] == [o[1] for o in order],
            'every queued message is sent once, in order, as asked, however many')
    h.check(sock.script == [] and m.outgoing_queue == [], 'through all rounds, however many')


def again(n):
    """the same message object is queued several times"""
    m, sock = manager()
    v = h.int('v', 0, 255)
    msg, other = message(v), message(9)
    model = []
    for k in range(n):
        what, tag = (msg, v) if h.choice('message', ['the same', 'another']) == 'the same' else (other, 9)
        rel = h.choice('reliable', [False, True])
        now = h.choice('now', [False, True])
        m.enqueue_message(what, reliable=rel, now=now)
        model.insert(0 if now else len(model), (tag, rel))
    run(m)
    got = sent(sock)
    h.check(len(got) == n and h.eq([g[0] for g in got], [o[0] for o in model]) and [g[1] for g in got] == [o[1] for o in model],
            'a message queued again is sent again, as asked then')
    h.check([h.realise(g[2]) for g in got] == range(1, n + 1), 'with an id of its own')


def malformed():
    """malformed packets in every round"""
    m, sock = manager()
    m.udp_dispatcher.settings.ENABLE_DEFERRED_PACKET_PARSING = h.choice('deferred', [True, False])
    n = h.choice('rounds', [1, 2, 3])
    bad = [h.choice('packet', ['', 'x', GARBAGE, '\x10\0\0\0\x09\0\x02\x09', '\x80\0\0\0\x09\0']) for k in range(n)]
    v = [h.int('v', 0, 255) for k in range(n + 1)]
    m.enqueue_message(message(v[0]))

    def round(k):
        def f():
            m.enqueue_message(message(v[k + 1]))
            if k == n - 1:
                m.stop_monitors()
            return bad[k]
        return f
    sock.script = [round(k) for k in range(n)]
    run(m)
    h.check(h.eq([x[0] for x in sent(sock)], v), 'malformed packets keep nothing from being sent')
    h.check(sock.script == [], 'and do not end the loop')


def side_by_side(n):
    """two managers: each has a queue, a state and an event queue of its own"""
    caps = [{'EventQueueGet': Cap()}, {}]
    if h.choice('event queue', ['first', 'second']) == 'second':
        caps.reverse()
    hosts = [HOST, ('127.0.0.2', 9)]
    two = [manager(caps=caps[k] or None, host=hosts[k]) for k in (0, 1)]
    h.check([m.event_queue is not None for m, s in two] == ['EventQueueGet' in c for c in caps], 'each manager has its own capabilities')
    model = [[], []]

    def fill(n):
        for k in range(n):
            w = h.choice('who', [0, 1])
            v = h.int('v', 0, 255)
            now = h.choice('now', [False, True])
            two[w][0].enqueue_message(message(v), reliable=True, now=now)
            model[w].insert(0 if now else len(model[w]), (v, True))
    fill(n)
    first = h.choice('first', [0, 1])
    a, asock = two[first]
    b, bsock = two[1 - first]
    order = [[], []]

    def round(last):
        def f():
            h.check(a._is_running and b._is_running, 'a manager runs until it is stopped itself')
            order[first] += model[first]
            model[first] = []
            if last:
                a.stop_monitors()
            return None
        return f
    b.start_monitors()
    asock.script = [round(False), round(True)]
    run(a)
    h.check(not a._is_running and b._is_running, 'stopping one manager stops no other')
    h.check(bsock.sent == [], 'a manager sends nothing of another')
    fill(1)
    model[first] = []
    order[1 - first] = model[1 - first]
    run(b)
    for k in (0, 1):
        got = sent(two[k][1], hosts[k])
        h.check(h.eq([g[:2] for g in got], order[k]), 'each manager sends what was queued at it')
        h.check([h.realise(g[2]) for g in got] == range(1, len(got) + 1), 'numbered for itself')


def cases(tier):
    out = []
    for n, most in (((1, 2), (2, 1), (3, 1)) if tier == 'quick' else ((1, 2), (2, 2), (3, 1), (4, 1), (5, 1))):
        out.append(('%d rounds, up to %d queued in each' % (n, most), history, (n, most)))
    out.append(('120 rounds', long, (120,)))
    out += [('queued again', again, (2 if tier == 'quick' else 4,)), ('malformed packets', malformed)]
    return out + [('waiting', waiting), ('direct', direct), ('from handlers', from_handler), ('failing', failing), ('side by side', side_by_side, (2 if tier == 'quick' else 3,)),
                  ('started, stopped before', started, ('before',)), ('started, stopped while running', started, ('running',)),
                  ('stop while polling', stop_polling)]
