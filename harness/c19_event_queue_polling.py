"""C19: the event queue acknowledges what it got, dispatches every event once, and survives failures."""
import copy
import h
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='every sequence of up to 4 (quick) or 5 (thorough) poll results among: events, no events, nothing, an HTTP failure, a response '
           'without id, a malformed event; any ids; subscribers that raise at any of up to 6 events; the queue is stopped after any poll; 30 and 120 (thorough: 200) times the same result between two answers; verbose and quiet logging; two queues side by side',
    outside='real coroutines: sleep and spawn are stand-ins that return at once',
    stubs='the capability is a stand-in that plays the results; eventlet sleep and spawn record their calls',
)
S = {}


class Failure(Exception):
    pass


class Cap(object):
    name = 'EventQueueGet'

    def __init__(self, script):
        self.script = script
        self.posted = []
        self.client = None
        self.fail_last = False

    def POST(self, data):
        self.posted.append(dict(data))
        if self.client.stopped:
            if self.fail_last:
                raise Failure('final')
            return None
        kind, r = self.script.pop(0)
        if not self.script:
            self.client.stop()
        if kind == 'fail':
            raise Failure('post')
        return r


def setup():
    S['eq'] = EventQueueClient(None, Settings(quiet_logging=True), MessageHandler(Settings(quiet_logging=True)), Host(('10.0.0.1', 5)))


def client(cap, quiet=True):
    eq = copy.copy(S['eq'])
    eq.settings = Settings(quiet_logging=quiet)
    eq.cap = cap
    eq.message_handler = MessageHandler(eq.settings)
    cap.client = eq
    h.patch_lib('eventlet.api', 'sleep', lambda *a: S['slept'].append(a))
    h.patch_lib('eventlet.api', 'spawn', lambda *a, **k: None)
    S['slept'] = []
    return eq


def event(v):
    return {'message': 'CompletePingCheck', 'body': {'PingID': [{'PingID': v}]}}


def polls(n, kinds, first=()):
    script = []
    want_posts, want_events = [{}], []
    last = None
    for k in range(n):
        kind = first[k] if k < len(first) else h.choice('result', kinds)
        ident = h.int('id', 0, 0x7fffffff)
        r = None
        if kind == 'events':
            r = {'id': ident, 'events': [event(2 * k), event(2 * k + 1)]}
            want_events += [2 * k, 2 * k + 1]
            last = ident
        elif kind == 'no events':
            r = {'id': ident, 'events': []}
            last = ident
        elif kind == 'nothing':
            last = None
        elif kind == 'no id':
            r = {'events': [event(99)]}
        elif kind == 'malformed':
            r = {'id': ident, 'events': [{'body': 3}]}
            last = ident
        script.append((kind if kind == 'fail' else 'ok', r))
        if last is None:
            want_posts.append({})
        else:
            want_posts.append({'ack': last})
    del want_posts[-1]
    if last is not None:
        want_posts.append({'ack': last, 'done': True})
    cap = Cap(script)
    eq = client(cap, h.choice('quiet', [True, False]))
    got = []
    eq.message_handler.register('CompletePingCheck').subscribe(lambda m: got.append(m['PingID'][0]['PingID']))
    h.check(eq.start() == True, 'the queue runs until it is stopped')
    h.check(h.eq(got, want_events), 'every event is dispatched once, in order')
    h.check(h.eq(cap.posted, want_posts), 'each poll acknowledges the last response')
    h.check(eq._running == False, 'a stopped queue is not running')
    h.check(len(S['slept']) >= n, 'it waits before each poll')
    h.observe('posted', cap.posted)


def subscriber():
    """a subscriber that raises neither stops the queue nor loses the other events"""
    sizes = [h.choice('events of answer', [1, 2, 3]) for _ in range(2)]
    n = sum(sizes)
    ids = [h.int('id', 0, 99), h.int('id', 0, 99)]
    cap = Cap([('ok', {'id': ids[0], 'events': [event(v) for v in range(sizes[0])]}),
               ('ok', {'id': ids[1], 'events': [event(v) for v in range(sizes[0], n)]})])
    eq = client(cap, h.choice('quiet', [True, False]))
    got = []
    raising = [h.bool('raises') for _ in range(n)]

    def f(m):
        v = m['PingID'][0]['PingID']
        got.append(v)
        if raising[v]:
            raise (Failure('x') if v % 2 else KeyError(v))
    eq.message_handler.register('CompletePingCheck').subscribe(f)
    h.check(eq.start() == True, 'the queue goes on when a subscriber raises')
    h.check(got == range(n), 'and dispatches the rest')
    h.check(h.eq(cap.posted, [{}, {'ack': ids[0]}, {'ack': ids[1], 'done': True}]), 'and acknowledges as ever')
    h.check(eq._running == False, 'until it is stopped')


def monitor():
    """stopping watches the end of the polling and comes to an end itself"""
    eq = client(Cap([]), h.choice('quiet', [True, False]))
    jobs = []
    ends = h.int('ends after', 0, 12)
    h.patch_lib('eventlet.api', 'spawn', lambda f, *a, **k: jobs.append((f, a, k)))

    def sleep(*a):
        S['slept'].append(a)
        if len(S['slept']) >= ends:
            eq._running = False
        h.check(len(S['slept']) <= 100, 'watching the end of the polling ends')
    h.patch_lib('eventlet.api', 'sleep', sleep)
    eq._running = True
    eq.stop()
    h.check(eq.stopped == True, 'stopping is known at once')
    for f, a, k in jobs:
        f(*a, **k)
    h.check(eq.stopped == True and eq.last_id == -1, 'and watching it changes nothing')
    h.observe('slept', len(S['slept']))


def last_post():
    """the last ack may fail"""
    cap = Cap([('ok', {'id': h.int('id', 0, 99), 'events': [event(1)]})])
    cap.fail_last = True
    eq = client(cap)
    eq.start()
    h.check(eq._running == False, 'a queue whose last ack fails is not running')


def other_cap():
    cap = Cap([])
    cap.name = 'SomethingElse'
    eq = client(cap)
    h.check(eq.start() == False, 'only an event queue capability is polled')
    h.check(cap.posted == [], 'others are left alone')


def sleeps():
    """the poll interval comes from the settings"""
    cap = Cap([('ok', None), ('fail', None)])
    eq = client(cap)
    v = h.int('interval', 0, 60)
    eq.settings.REGION_EVENT_QUEUE_POLL_INTERVAL = v
    eq.start()
    h.check(h.and_(*[a[0] == v for a in S['slept']]), 'the poll interval is that of the settings')


def long(kind, n):
    """many polls with the same result, then one with events"""
    base = h.int('id', 0, 1000)
    script, want_posts, want_events = [], [{}], []
    last = None
    for k in range(n + 2):
        what = 'events' if k in (0, n + 1) else kind
        r = None
        if what == 'events':
            r = {'id': base + k, 'events': [event(2 * k & 255), event(2 * k + 1 & 255)]}
            want_events += [2 * k & 255, 2 * k + 1 & 255]
        elif what == 'no events':
            r = {'id': base + k, 'events': []}
        elif what == 'no id':
            r = {'events': [event(99)]}
        elif what == 'malformed':
            r = {'id': base + k, 'events': [{'body': 3}]}
        if what == 'nothing':
            last = None
        elif what not in ('fail', 'no id'):
            last = base + k
        script.append((what, r))
        want_posts.append({} if last is None else {'ack': last})
    want_posts[-1] = {'ack': last, 'done': True}
    cap = Cap(script)
    eq = client(cap, h.choice('quiet', [True, False]))
    got = []
    eq.message_handler.register('CompletePingCheck').subscribe(lambda m: got.append(m['PingID'][0]['PingID']))
    h.check(eq.start() == True, 'the queue runs until it is stopped, however long')
    h.check(got == want_events, 'every event is dispatched once, however many polls')
    h.check(h.eq(cap.posted, want_posts), 'each poll acknowledges the last response, however many polls')


def side_by_side():
    """two event queues: each polls, acknowledges and stops for itself"""
    hosts = [Host(('10.0.0.1', 5)), Host(('10.0.0.2', 5))]
    got = [[], []]
    eqs, caps, ids = [], [], []
    st = Settings(quiet_logging=True)
    for w in (0, 1):
        i = [h.int('id', 0, 0x7fffffff), h.int('id', 0, 0x7fffffff)]
        cap = Cap([('ok', {'id': i[k], 'events': [event(10 * w + k)]}) for k in (0, 1)])
        eq = EventQueueClient(cap, st, MessageHandler(st), hosts[w])
        cap.client = eq
        eqs.append(eq)
        caps.append(cap)
        ids.append(i)
        eq.message_handler.register('CompletePingCheck').subscribe(
            lambda m, log=got[w]: log.append((m['PingID'][0]['PingID'], m.host.ip, m.host.port)))
    h.patch_lib('eventlet.api', 'sleep', lambda *a: None)
    h.patch_lib('eventlet.api', 'spawn', lambda *a, **k: None)
    at = h.choice('other polls during', [0, 1, 2])
    post = caps[0].POST

    def f(data):
        if len(caps[0].posted) == at:
            h.check(eqs[1].start() == True, 'the other one runs until it is stopped')
            h.check(eqs[0]._running and eqs[0].stopped == (at == 2), 'which stops no other')
        return post(data)
    caps[0].POST = f
    h.check(eqs[0].start() == True, 'the one runs until it is stopped')
    for w in (0, 1):
        i = ids[w]
        h.check(h.eq(caps[w].posted, [{}, {'ack': i[0]}, {'ack': i[1], 'done': True}]), 'each acknowledges its own answers')
        h.check(got[w] == [(10 * w, hosts[w].ip, 5), (10 * w + 1, hosts[w].ip, 5)], 'and dispatches its own events')
        h.check(eqs[w].stopped and not eqs[w]._running, 'and stops')


def cases(tier):
    out = []
    kinds = ['events', 'no events', 'nothing', 'fail', 'no id', 'malformed']
    for n in range(1, 5 if tier == 'quick' else 6):
        firsts = [()]
        for _ in range(n - 3):
            firsts = [f + (k,) for f in firsts for k in kinds]
        for f in firsts:
            out.append((' '.join(['%d polls' % n] + [k.replace(' ', '-') for k in f]), polls, (n, kinds, f)))
    out += [('%d times %s' % (n, k), long, (k, n)) for k in kinds for n in ((30, 120) if tier == 'quick' else (30, 120, 200))]
    return out + [('side by side', side_by_side), ('subscriber', subscriber), ('watching the end', monitor),
                  ('last ack', last_post), ('other capability', other_cap), ('interval', sleeps)]
