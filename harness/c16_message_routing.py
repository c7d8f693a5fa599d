"""C16: a handled message reaches the subscribers of its name, and nobody else."""
import h
import lib_net
import lib_ref
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='histories of up to 4 (quick) or 5 (thorough) registrations, subscriptions, removals and messages under arbitrary 2-character '
           'names; verbose and quiet logging; histories of 3 (thorough: 4) incoming and outgoing packets of the dispatcher; 60 names with two subscribers each; two handlers side by side; all names of the template, five selections of them subscribed',
    outside='longer histories and names',
    stubs='the UDP client is a stand-in that records what is sent; the message template is a small one',
)


def history(steps):
    st = Settings(quiet_logging=h.choice('quiet', [True, False]))
    mh = MessageHandler(st)
    log = []

    def f(m):
        log.append(('f', m))

    def g(m):
        log.append(('g', m))
    subs = []          # (name, handler) in order
    names = []         # registered names
    for k in range(steps):
        op = h.choice('op', ['register', 'subscribe f', 'subscribe g', 'unsubscribe f', 'handle'])
        n = h.bytes('name', 2)
        if op == 'handle':
            m = Message(n)
            del log[:]
            mh.handle(m)
            want = [w for x, w in subs if h.flag(x == n)]
            h.check([w for w, x in log] == want, 'exactly the subscribers of the name are called')
            for w, x in log:
                h.check(x is m, 'with the message itself')
        elif op == 'register':
            mh.register(n)
            names.append(n)
        elif op == 'unsubscribe f':
            names.append(n)
            hit = -1
            for i, (x, w) in enumerate(subs):
                if w == 'f' and h.flag(x == n):
                    hit = i
                    break
            try:
                mh.register(n).unsubscribe(f)
                h.check(hit >= 0, 'removing what is not subscribed is refused')
                del subs[hit]
            except ValueError:
                h.check(hit < 0, 'what is subscribed can be removed')
        else:
            mh.register(n).subscribe(f if op == 'subscribe f' else g)
            subs.append((n, op[-1]))
            names.append(n)
        h.check(mh.is_message_handled(n) == h.or_(*[n == x for x in names]), 'a name is watched once it is registered')


def sticky():
    """registering again keeps the subscribers"""
    mh = MessageHandler(Settings(quiet_logging=True))
    n = h.bytes('name', 3)
    o = h.bytes('other', 3)
    a = mh.register(n)
    h.check(mh.register(n) is a, 'registering twice gives the same notifier')
    h.check(a.message_name == n, 'which knows its name')
    if n != o:
        h.check(mh.register(o) is not a, 'another name has another notifier')
        h.check(len(a) == 0, 'without subscribers yet')
        mh.register(o).subscribe(lambda m: None)
        h.check(len(a) == 0 and len(mh.register(o)) == 1, 'subscribers are kept by name')


class Boom(Exception):
    pass


def failing(kind):
    mh = MessageHandler(Settings(quiet_logging=True))
    n = h.bytes('name', 2)

    def f(m):
        if kind == 'key':
            raise KeyError('x')
        raise Boom('x')
    mh.register(n).subscribe(f)
    try:
        mh.handle(Message(n))
        ok = False
    except (KeyError, Boom):
        ok = True
    h.check(ok, 'the exception of a subscriber is not swallowed')


def dispatcher():
    """what the dispatcher hands over"""
    st = Settings(quiet_logging=True)
    st.HANDLE_OUTGOING_PACKETS = h.choice('outgoing', [True, False])
    st.HANDLE_PACKETS = h.choice('incoming', [True, False])
    mh = MessageHandler(st)
    d, c = lib_net.dispatcher(st, mh)
    got = []
    mh.register('StartPingCheck').subscribe(got.append)
    host = Host(('10.0.0.1', 1))
    m = lib_net.ping(5)
    d.send_message(m, host)
    h.check(got == ([m] if st.HANDLE_OUTGOING_PACKETS else []), 'outgoing messages are handed over when asked for')
    del got[:]
    pid = h.int('pid', 0, 0xffffffff)
    name = h.choice('message', ['ping', 'complete'])
    p = lib_net.packet(pid, 0, name)
    r = d.receive_check(host, p, len(p))
    if name == 'ping':
        h.check(r is not None and r.packet_id == pid, 'a watched message is returned')
        h.check(got == ([r] if st.HANDLE_PACKETS else []), 'and handed over once unless switched off')
    else:
        h.check(got == [], 'other messages are not handed over')
    h.check(d.receive_check(host, '', 0) is None, 'nothing received, nothing handed over')


def many(n):
    """many names"""
    mh = MessageHandler(Settings(quiet_logging=True))
    log = []
    pre = h.bytes('name', 2)
    names = [pre + str(k) for k in range(n)]
    for k, x in enumerate(names):
        mh.register(x).subscribe(lambda m, i: log.append((i, m)), k)
        mh.register(x).subscribe(lambda m, i: log.append((i, m)), k + n)
    for r in range(3):
        for k, x in enumerate(names):
            m = Message(x)
            mh.handle(m)
            h.check([(i, y is m) for i, y in log] == [(k, True), (k + n, True)], 'each message reaches its subscribers, however many names there are')
            del log[:]
            h.check(mh.is_message_handled(x), 'and each name stays watched')


def template_names(part):
    """every message of the template, some of them subscribed to"""
    mh = MessageHandler(Settings(quiet_logging=True))
    log = []
    names = sorted(set([e[0] for e in lib_ref.ENTRIES]))
    mine = [x for k, x in enumerate(names) if (k + part) % 3 == 0 or part == 3 and x.endswith('Request') or part == 4 and not x.endswith('Request')]
    for x in mine:
        mh.register(x).subscribe(lambda m, n: log.append((n, m)), x)
    for x in names:
        m = Message(x)
        mh.handle(m)
        h.check([(n, y is m) for n, y in log] == ([(x, True)] if x in mine else []), 'a message reaches the subscribers of its name, whatever other names there are')
        del log[:]


def outgoing(n):
    """outgoing messages are handed over whatever was sent and received before"""
    st = Settings(quiet_logging=True)
    st.HANDLE_OUTGOING_PACKETS = True
    d, c = lib_net.dispatcher(st)
    got = []
    names = ['StartPingCheck', 'CompletePingCheck', 'PacketAck']
    for x in names:
        d.message_handler.register(x).subscribe(got.append)
    hosts = [Host(('10.0.0.1', 1)), Host(('10.0.0.1', 2))]
    for k in range(n):
        op = h.choice('op', ['send', 'reliable', 'retry', 'receive', 'acks'])
        host = hosts[h.choice('host', [0, 1])]
        pid = h.int('pid', 0, 0xffffffff)
        del got[:]
        before = len(c.sent)
        m = (lib_net.ping, lib_net.complete)[k % 2](k)
        if op == 'receive':
            p = lib_net.packet(pid, h.choice('flags', [0, 0x40]))
            d.receive_check(host, p, len(p))
            h.check([x.packet_id == pid for x in got] == [True], 'an incoming packet is handed over once')
        elif op == 'acks':
            d.process_acks()
            h.check([x.name for x in got] == ['PacketAck'] * (len(c.sent) - before), 'acks are handed over as they are sent')
        else:
            if op == 'send':
                d.send_message(m, host)
            elif op == 'reliable':
                d.send_reliable(m, host, 0)
            else:
                d.send_retry(m, host)
            h.check([x is m for x in got] == [True], 'a sent message is handed over once, whatever came before')


def side_by_side(steps):
    """two handlers: a message handled by one reaches no subscriber of the other"""
    st = Settings(quiet_logging=True)
    two = [MessageHandler(st), MessageHandler(st)]
    log = []
    subs, names = [[], []], [[], []]
    for k in range(steps):
        w = h.choice('which', [0, 1])
        op = h.choice('op', ['register', 'subscribe', 'handle'])
        n = h.bytes('name', 2)
        if op == 'handle':
            m = Message(n)
            del log[:]
            two[w].handle(m)
            h.check([x for x, y in log] == [j for x, j in subs[w] if h.flag(x == n)], 'the subscribers at this handler are called')
            h.check(all([y is m for x, y in log]), 'with the message')
        else:
            e = two[w].register(n)
            names[w].append(n)
            if op == 'subscribe':
                e.subscribe(lambda m, k=k: log.append((k, m)))
                subs[w].append((n, k))
        for i in (0, 1):
            h.check(two[i].is_message_handled(n) == h.or_(*[n == x for x in names[i]]), 'each handler watches its own names')


def cases(tier):
    out = [('history of %d' % n, history, (n,)) for n in range(1, 4 if tier == 'quick' else 5)]
    out += [('outgoing, %d' % n, outgoing, (n,)) for n in ((2, 3) if tier == 'quick' else (2, 3, 4))]
    out += [('side by side, %d' % n, side_by_side, (n,)) for n in ((2, 3) if tier == 'quick' else (2, 3, 4))]
    return out + [('sticky', sticky), ('failing, other', failing, ('other',)), ('failing, key', failing, ('key',)), ('dispatcher', dispatcher), ('many', many, (60,))] + [('names of the template, %d' % k, template_names, (k,)) for k in range(5)]
