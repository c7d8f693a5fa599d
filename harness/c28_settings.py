"""C28: settings reach what they are for; logging settings change nothing but the log."""
import h
import lib_net
import lib_http
import lib_any
import lib_ref
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message_manager import MessageManager
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.caps import Capability, SeedCapability
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='arguments of Settings: all; logging settings: all 2^12 combinations of the flags, decided where the code asks for them, against the quiet '
           'ones, for each of ten kinds of packets received, seven kinds of messages sent, an ack round, three kinds of capability calls and '
           'four kinds of event queue answers, with arbitrary ids and values; every way of handing settings to a component',
    outside='what the log says; the embedded template and message.xml as such',
    stubs='UDP client and REST client are stand-ins; logging calls format their text and drop it',
)
A = ('10.0.0.1', 13000)
FLAGS = ['LOG_VERBOSE', 'ENABLE_BYTES_TO_HEX_LOGGING', 'ENABLE_CAPS_LOGGING', 'ENABLE_CAPS_LLSD_LOGGING', 'ENABLE_EQ_LOGGING',
         'ENABLE_UDP_LOGGING', 'ENABLE_OBJECT_LOGGING', 'LOG_SKIPPED_PACKETS', 'ENABLE_HOST_LOGGING', 'LOG_COROUTINE_SPAWNS',
         'PROXY_LOGGING', 'DISABLE_SPAMMERS']
S = {}


class Boom(Exception):
    pass


def setup():
    lib_any.setup(2)
    S['eq'] = [EventQueueClient(None, Settings(quiet_logging=True), MessageHandler(Settings(quiet_logging=True)), Host(A)) for k in range(2)]


def loud():
    s = Settings()
    for f in FLAGS:
        setattr(s, f, h.bool(f))
    if h.choice('spammers', [True, False]):
        s.UDP_SPAMMERS = []
    return s


def arguments():
    """quiet logging overrides spammy logging; nothing but logging depends on them"""
    q, p, t = h.flag(h.bool('quiet')), h.flag(h.bool('spammy')), h.flag(h.bool('tests'))
    s = Settings(quiet_logging=q, spammy_logging=p, log_tests=t)
    h.check(s.quiet_logging == q and s.spammy_logging == p, 'the arguments are kept')
    for f in ('LOG_VERBOSE', 'ENABLE_CAPS_LOGGING', 'ENABLE_EQ_LOGGING', 'ENABLE_UDP_LOGGING', 'LOG_SKIPPED_PACKETS', 'ENABLE_OBJECT_LOGGING',
              'ENABLE_HOST_LOGGING', 'LOG_COROUTINE_SPAWNS'):
        h.check(getattr(s, f) == (not q), 'quiet logging turns off ' + f)
    for f in ('ENABLE_BYTES_TO_HEX_LOGGING', 'ENABLE_CAPS_LLSD_LOGGING'):
        h.check(getattr(s, f) == (p and not q), 'only spammy logging turns on ' + f)
    h.check(s.DISABLE_SPAMMERS == (q or not p), 'only spammy logging shows spammers')
    h.check(s.ENABLE_LOGGING_IN_TESTS == t, 'test logging is its own switch')
    h.check(s.HANDLE_PACKETS == True and s.HANDLE_OUTGOING_PACKETS == False, 'packets are handled as they come in')
    h.check(s.ENABLE_DEFERRED_PACKET_PARSING == True and s.ENABLE_REGION_EVENT_QUEUE == True, 'parsing is deferred, event queues are polled')
    h.check(s.REGION_EVENT_QUEUE_POLL_INTERVAL == 1, 'once a second')
    o = Settings()
    s.UDP_SPAMMERS.append('x')
    s.HANDLE_PACKETS = False
    h.check(o.UDP_SPAMMERS == ['PacketAck', 'AgentUpdate'] and o.HANDLE_PACKETS == True, 'settings objects share nothing')


def message(m):
    return [m.name, m.packet_id, m.send_flags, m.event_queue_id, list(m.acks), m.num_acks, m.reliable, m.host is None,
            [getattr(m, n, None) for n in ('trusted', 'resent', 'retries', 'expiration_time', 'socket')], m.to_dict()]


def view(d, c, got, host=A):
    """all of the state of a dispatcher"""
    k = d.find_circuit(Host(host))
    return [[list(s) for s in c.sent], [message(m) for m in got], list(k.acks), sorted(k.unacked_packets.keys()),
            [message(k.unacked_packets[i]) for i in sorted(k.unacked_packets.keys())], k.unack_packet_count, k.last_packet_out_id,
            [getattr(k, n, None) for n in ('unack_packet_bytes', 'final_packet_count', 'last_packet_in_id', 'is_alive', 'is_trusted', 'is_blocked', 'allow_timeout')],
            len(getattr(k, 'final_retry_packets', {})), len(d.circuit_manager.circuit_map), len(getattr(d.circuit_manager, 'unacked_circuits', {})),
            d.packets_in, d.packets_out, getattr(d, 'receive_packet_id', None), d.has_unacked(), [d.message_handler.is_message_handled(n) for n in ('StartPingCheck', 'CompletePingCheck', 'PacketAck', 'Blob')]]


def attempt(f, *a):
    try:
        r = f(*a)
        return 'ok', r is None
    except Exception, e:
        return 'error', type(e).__name__


def pair(raising=False):
    """two dispatchers, one quiet, one with arbitrary logging"""
    out = []
    hd, ho, df = h.choice('handling', [(True, False, True), (True, True, False), (False, False, True)])
    for s in (Settings(quiet_logging=True), loud()):
        s.HANDLE_PACKETS = hd
        s.HANDLE_OUTGOING_PACKETS = ho
        s.ENABLE_DEFERRED_PACKET_PARSING = df
        d, c = lib_net.dispatcher(s)
        got = []

        def f(m, g=got):
            g.append(m)
            if raising:
                raise Boom('x')
        d.message_handler.register('StartPingCheck').subscribe(f)
        d.message_handler.register('PacketAck').subscribe(f)
        out.append((d, c, got))
    return out


def compare(ds, what):
    (d, c, g), (e, f, k) = ds
    h.check(h.eq(view(d, c, g), view(e, f, k)), 'logging does not change ' + what)


def received(kind):
    ds = pair(kind == 'raising')
    pid, v = h.int('pid', 0, 0xffffffff), h.int('v', 0, 0xff)
    fl = h.choice('flags', [0, 0x40])
    if kind in ('watched', 'raising'):
        p = lib_net.packet(pid, fl)
    elif kind == 'unwatched':
        p = lib_net.packet(pid, fl, 'complete')
    elif kind == 'acks':
        p = lib_net.packet(pid, fl | 0x10, 'complete', acks=[v, 1])
    elif kind == 'packetack':
        p = lib_net.packet(pid, fl, 'ack', data=[v])
    elif kind == 'close':
        p = lib_net.packet(pid, fl, 'close')
    elif kind == 'short':
        p = lib_net.packet(pid, fl)[:h.choice('length', [0, 1, 5, 6, 7, 8, 10])]
    elif kind == 'unknown':
        p = chr(fl) + '\0\0\0\x01\0' + chr(v) + '\x09\x09'
    elif kind == 'zero-coded':
        p = chr(fl | 0x80) + '\0\0\0\x01\0' + '\x01' + chr(v) + '\0\x04'
    else:
        p = ''
    rs = []
    for d, c, got in ds:
        for k in range(2):
            attempt(d.send_reliable, lib_net.ping(), Host(A), 0)
        rs.append(attempt(d.receive_check, Host(A), p, len(p)))
        rs.append(attempt(d.send_message, lib_net.ping(3), Host(A)))
        rs.append(attempt(d.process_acks))
    h.check(rs[:3] == rs[3:], 'logging does not change the outcome of a received packet')
    compare(ds, 'the state after a received packet')


def any_message(entry, tier):
    """any message received and sent, with quiet and with loud logging"""
    pick = lib_any.Picker(entry, tier)
    p = lib_any.Packet(pick, entry, (0, 3))
    watched = pick.choice('watched', [True, False])
    deferred = pick.choice('deferred', [True, False])
    out = []
    ss = [Settings(quiet_logging=True), pick.choice('loud', [Settings(spammy_logging=True), Settings()])]
    for k in (0, 1):
        d, c = lib_any.dispatcher(k, deferred)
        ss[k].ENABLE_DEFERRED_PACKET_PARSING = deferred
        d.settings = d.udp_deserializer.settings = d.message_handler.settings = ss[k]
        got = []
        if watched:
            d.message_handler.register(entry[0]).subscribe(got.append)
        rs = [attempt(d.send_reliable, lib_net.ping(), Host(A), 0), attempt(d.receive_check, Host(A), p.wire, len(p.wire)),
              attempt(d.send_reliable, lib_any.message(entry), Host(A), 0), attempt(d.process_acks)]
        out.append((rs, (d, c, got)))
    h.check(out[0][0] == out[1][0], 'logging does not change the outcome of any message')
    (d, c, g), (e, f, k) = out[0][1], out[1][1]
    h.check(h.eq(c.sent, f.sent) and [m.name for m in g] == [m.name for m in k], 'what is sent and handled')
    h.check(h.eq(view(d, c, []), view(e, f, [])), 'or the state after it')


def made(kind):
    if kind in ('ping', 'raising'):
        return lib_net.ping(h.int('v', 0, 255))
    if kind == 'unknown':
        return Message('Unknown', Block('A', B=1))
    if kind == 'disallowed':
        return Message('EstablishAgentCommunication')
    if kind == 'too long':
        return Message('Blob', Block('Part', Data='x' * 65536))
    if kind == 'unicode':
        return Message('Blob', Block('Part', Data=h.unicode('u', 2)))
    if kind == 'bad unicode':
        return Message('Blob', Block('Part', Data=u'\xe9' * 65536))
    if kind == 'binary':
        return Message('Blob', Block('Part', Data=h.bytes('b', 3)))
    return Message('CompletePingCheck', Block('PingID', PingID='x'))


def sent(kind):
    ds = pair(kind == 'raising')
    m = [made(kind)]
    m.append(copy(m[0]))
    rel = h.choice('reliable', [True, False])
    rs = []
    ids = [h.int('acked', 0, 0xffffffff) for k in range(2)]
    for (d, c, got), x in zip(ds, m):
        if rel:
            for i in ids:
                d.find_circuit(Host(A)).collect_ack(i)
        rs.append(attempt(d.send_reliable, x, Host(A), 0) if rel else attempt(d.send_message, x, Host(A)))
        rs.append(attempt(d.send_message, lib_net.ping(3), Host(A)))
    h.check(rs[:2] == rs[2:], 'logging does not change the outcome of sending')
    compare(ds, 'what is sent')
    h.check(h.eq(message(m[0]), message(m[1])), 'logging does not change the message sent')


def copy(m):
    n = Message(m.name)
    for b in m.blocks:
        for x in m.blocks[b]:
            y = Block(b)
            for v in x.var_list:
                y.add_variable(x.get_variable(v))
            n.add_block(y)
    return n


def acked(n):
    ds = pair()
    ids = [h.int('id', 0, 0xffffffff) for k in range(n)]
    for d, c, got in ds:
        k = d.find_circuit(Host(A))
        for i in ids:
            k.collect_ack(i)
        d.process_acks()
    compare(ds, 'the ack round')


def capability(kind):
    """a call has the same outcome and request"""
    v = h.int('v', 0, 99)
    how = h.choice('answer', ['llsd', 'other type', 'no body', 'broken', 'error', 'not found', 'html'])
    rs = []
    for s in (Settings(quiet_logging=True), loud()):
        if how == 'llsd':
            a = lib_http.Response('application/llsd+xml', h.llsd_doc({'a': v}))
        elif how == 'html':
            a = lib_http.Response('text/html', h.llsd_doc({'a': v}))
        elif how == 'other type':
            a = lib_http.Response('image/png', 'x')
        elif how == 'no body':
            a = lib_http.Response('application/llsd+xml', '')
        elif how == 'broken':
            a = lib_http.Response('application/llsd+xml', '<html')
        else:
            a = ('fail', 404 if how == 'not found' else 500, 'msg', 'body')
        rest = lib_http.Rest([a])
        cap = Capability('c', 'http://127.0.0.1/', rest, s)
        try:
            if kind == 'GET':
                r = cap.GET()
            elif kind == 'POST':
                r = cap.POST({'q': v})
            else:
                r = cap.POST_CUSTOM({'a': 'b'}, 'x')
        except Exception, e:
            r = type(e).__name__
        rs.append((r, len(rest.calls), rest.calls[0][0], rest.calls[0][3]))
    h.check(h.eq(list(rs[0]), list(rs[1])), 'logging does not change a capability call')


class Cap(object):
    name = 'EventQueueGet'

    def __init__(self, eq, answers):
        self.eq = eq
        self.answers = list(answers)
        self.posted = []

    def POST(self, data):
        self.posted.append(dict(data))
        if not self.answers:
            return None
        a = self.answers.pop(0)
        if not self.answers:
            self.eq.stopped = True
        if a == 'fail':
            raise Boom('x')
        return a


def polled(kind):
    h.patch_lib('eventlet.api', 'sleep', lambda *a: None)
    h.patch_lib('eventlet.api', 'spawn', lambda *a, **k: None)
    i = h.int('id', 0, 99)
    v = h.int('v', 0, 255)
    if kind == 'events':
        a = {'id': i, 'events': [{'message': 'CompletePingCheck', 'body': {'PingID': [{'PingID': v}]}}, {'message': 'Foreign', 'body': {'A': v}}]}
    elif kind == 'malformed':
        a = {'id': i, 'events': [{'message': 'CompletePingCheck', 'body': 3}]}
    elif kind == 'fail':
        a = 'fail'
    else:
        a = None
    out = []
    for eq, s in zip(S['eq'], (Settings(quiet_logging=True), loud())):
        eq.settings = s
        eq.stopped = False
        eq._running = False
        eq.last_id = -1
        mh = MessageHandler(s)
        eq.message_handler = mh
        got = []
        mh.register('CompletePingCheck').subscribe(got.append)
        mh.register('Foreign').subscribe(got.append)
        cap = Cap(eq, [a, {'id': 5, 'events': []}])
        eq.cap = cap
        r = eq.start()
        out.append([r, cap.posted, [m.to_dict() for m in got], eq._running])
    h.check(h.eq(out[0], out[1]), 'logging does not change the polling')


def handed(way):
    """a component uses the settings it is given, and hands them on"""
    h.patch_lib('socket', 'socket', lambda *a: 'socket')
    h.patch_lib('eventlet.api', 'spawn', lambda *a, **k: None)
    s = Settings(quiet_logging=True)
    s.HANDLE_PACKETS = h.choice('handle', [True, False])
    if way == 'manager':
        m = MessageManager(Host(A), settings=s, capabilities={'EventQueueGet': None}, message_template=h.templfile(lib_net.TEMPLATE))
        h.check(m.settings is s, 'a manager has its settings')
        h.check(m.event_queue.settings is s, 'so has its event queue')
        d = m.udp_dispatcher
        h.check(m.event_queue.message_handler is m.message_handler and d.message_handler is m.message_handler, 'they share one handler')
    elif way == 'manager without':
        m = MessageManager(Host(A), message_template=h.templfile(lib_net.TEMPLATE))
        h.check(m.settings.HANDLE_PACKETS == True and m.udp_dispatcher.settings is m.settings, 'a manager without settings uses the defaults')
        return
    elif way == 'dispatcher':
        d = UDPDispatcher(lib_net.Client(), s, message_template=h.templfile(lib_net.TEMPLATE))
    elif way == 'handler':
        mh = MessageHandler(s)
        h.check(mh.settings is s and mh.register('x').settings is s, 'a handler and its notifiers have its settings')
        h.check(MessageHandler().settings is not s, 'another one has its own')
        return
    elif way == 'capabilities':
        c = SeedCapability('seed', 'http://127.0.0.1/', None, s)
        h.check(c.settings is s and Capability('c', 'u', None, s).settings is s, 'a capability has its settings')
        h.check(Capability('c', 'u').settings is not s, 'another one has its own')
        c.restclient = lib_http.Rest([lib_http.Response('application/llsd+xml', h.llsd_doc({'capabilities': {'one': 'http://127.0.0.1/1', 'two': 'http://127.0.0.1/2'}}))])
        got = c.get(['one', 'two'])
        h.check([got[k].settings is s for k in sorted(got)] == [True, True], 'so have the capabilities it retrieves')
        return
    h.check(d.settings is s, 'a dispatcher has its settings')
    h.check(d.udp_deserializer.settings is s, 'so has its deserializer')
    got = []
    d.message_handler.register('StartPingCheck').subscribe(got.append)
    p = lib_net.packet(1)
    d.receive_check(Host(A), p, len(p))
    h.check(len(got) == (1 if s.HANDLE_PACKETS else 0), 'packets are handled if the settings say so')


def own(way):
    """components that are given neither settings nor handlers share none"""
    h.patch_lib('socket', 'socket', lambda *a: 'socket')
    h.patch_lib('eventlet.api', 'spawn', lambda *a, **k: None)
    tmpl = lambda: h.templfile(lib_net.TEMPLATE)
    make = {'manager': lambda: MessageManager(Host(A), message_template=tmpl()), 'dispatcher': lambda: UDPDispatcher(lib_net.Client(), message_template=tmpl()),
            'deserializer': lambda: UDPMessageDeserializer(message_template=tmpl()), 'handler': MessageHandler,
            'event queue': lambda: EventQueueClient(Capability('EventQueueGet', 'u')), 'capability': lambda: Capability('c', 'u'), 'seed': lambda: SeedCapability('c', 'u')}[way]
    x, y = make(), make()
    fresh = Settings()
    first, second = h.choice('order', [(x, y), (y, x)])
    for n in ('HANDLE_PACKETS', 'ENABLE_DEFERRED_PACKET_PARSING', 'LOG_VERBOSE'):
        old = getattr(second.settings, n)
        setattr(first.settings, n, not old)
        h.check(getattr(second.settings, n) == old == getattr(fresh, n), 'settings of one component are not those of another')
        h.check(getattr(Settings(), n) == old, 'nor the defaults')
    if way in ('manager', 'dispatcher', 'deserializer', 'event queue'):
        first.message_handler.register('StartPingCheck')
        h.check(first.message_handler.is_message_handled('StartPingCheck') and not second.message_handler.is_message_handled('StartPingCheck'), 'nor are its handlers')
        h.check(not make().message_handler.is_message_handled('StartPingCheck') and not MessageHandler().is_message_handled('StartPingCheck'), 'also not those of a later one')


def parts(way):
    """the handler a component makes for itself has the settings of the component"""
    h.patch_lib('socket', 'socket', lambda *a: 'socket')
    s = Settings(quiet_logging=h.choice('quiet', [True, False])) if h.choice('given', [True, False]) else None
    tmpl = h.templfile(lib_net.TEMPLATE)
    x = {'manager': lambda: MessageManager(Host(A), settings=s, capabilities={'EventQueueGet': Capability('EventQueueGet', 'u')}, message_template=tmpl),
         'dispatcher': lambda: UDPDispatcher(lib_net.Client(), s, message_template=tmpl),
         'deserializer': lambda: UDPMessageDeserializer(settings=s, message_template=tmpl),
         'event queue': lambda: EventQueueClient(Capability('EventQueueGet', 'u'), s)}[way]()
    if s is not None:
        h.check(x.settings is s, 'a component has its settings')
    h.check(x.message_handler.settings is x.settings, 'and so has the handler it makes')
    h.check(x.message_handler.register('x').settings is x.settings, 'and its notifiers')
    if way == 'manager':
        h.check(x.event_queue.message_handler is x.message_handler and x.event_queue.settings is x.settings, 'and the event queue')
    if way in ('manager', 'dispatcher'):
        d = x.udp_dispatcher if way == 'manager' else x
        h.check(d.settings is x.settings and d.message_handler is x.message_handler, 'and the dispatcher')
        h.check(d.udp_deserializer.settings is x.settings and d.udp_deserializer.message_handler is x.message_handler, 'and the deserializer')


def fallback(way):
    """template arguments that are no files are replaced by the embedded template"""
    h.patch_lib('socket', 'socket', lambda *a: 'socket')
    bad = h.choice('template', ['text', 3])
    if way == 'manager':
        d = MessageManager(Host(A), settings=Settings(quiet_logging=True), message_template=bad, message_xml=bad).udp_dispatcher
    else:
        d = UDPDispatcher(lib_net.Client(), Settings(quiet_logging=True), message_template=bad)
    h.check(d.udp_deserializer.template_dict.get_template('AgentUpdate') is not None, 'the embedded template is used')
    m = Message('CompletePingCheck', Block('PingID', PingID=1))
    h.check(d.udp_serializer.serialize(m)[6:7] == '\x02', 'for sending as well')


def cases(tier):
    out = [('arguments', arguments)]
    for k in ('watched', 'unwatched', 'raising', 'acks', 'packetack', 'close', 'short', 'unknown', 'zero-coded', 'nothing'):
        out.append(('received %s' % k, received, (k,)))
    for k in ('ping', 'raising', 'unknown', 'disallowed', 'too long', 'unicode', 'bad unicode', 'binary', 'wrong value'):
        out.append(('sent %s' % k, sent, (k,)))
    for e in lib_ref.ENTRIES:
        out.append(('any %s' % e[0], any_message, (e, tier)))
    for n in (0, 1, 2) if tier == 'quick' else (0, 1, 2, 251, 256):
        out.append(('%d acks' % n, acked, (n,)))
    for k in ('GET', 'POST', 'POST_CUSTOM'):
        out.append((k, capability, (k,)))
    for k in ('events', 'malformed', 'fail', 'nothing'):
        out.append(('polled %s' % k, polled, (k,)))
    for k in ('manager', 'manager without', 'dispatcher', 'handler', 'capabilities'):
        out.append(('handed to %s' % k, handed, (k,)))
    for k in ('manager', 'dispatcher', 'deserializer', 'handler', 'event queue', 'capability', 'seed'):
        out.append(('own %s' % k, own, (k,)))
    for k in ('manager', 'dispatcher', 'deserializer', 'event queue'):
        out.append(('parts of %s' % k, parts, (k,)))
    for k in ('manager', 'dispatcher'):
        out.append(('fallback of %s' % k, fallback, (k,)))
    return out
