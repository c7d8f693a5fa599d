"""C18: an event queue response becomes exactly the messages it carries."""
import copy
import h
import lib_ref
from pyogp.lib.base.event_queue import EventQueueClient
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message import Message
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='responses with 0 to 3 events, each a message of the template (every message in turn, with 0 to 2 copies of each block) or one '
           'outside it with 0 to 2 values; any integer, string, binary, boolean and real values, empty strings, lists and maps, nested maps, undefined; any response id; up to 300 events, repeats, fields and values of mostly fixed contents',
    outside='bodies of template messages that do not have the template\'s block structure; responses with other keys than id and events',
    stubs='the capability is a stand-in that returns the response',
)
S = {}


class Cap(object):
    name = 'EventQueueGet'

    def __init__(self):
        self.script = []
        self.posted = []
        self.client = None

    def POST(self, data):
        self.posted.append(dict(data))
        r = self.script.pop(0)
        if not self.script:
            self.client.stop()
        return r


def setup():
    S['eq'] = EventQueueClient(Cap(), Settings(quiet_logging=True), MessageHandler(Settings(quiet_logging=True)), Host(('10.0.0.1', 5)))


def deliver(response, names):
    """the messages the subscribers get for a response"""
    eq = copy.copy(S['eq'])
    cap = Cap()
    cap.client = eq
    eq.cap = cap
    eq.message_handler = MessageHandler(eq.settings)
    got = []
    for n in names:
        if not eq.message_handler.is_message_handled(n):
            eq.message_handler.register(n).subscribe(got.append)
    cap.script = [response, None]
    h.check(eq.start() == True, 'the queue runs')
    return got


def value(k):
    """an arbitrary value of a kind that LLSD has"""
    kind = k % 12
    if kind == 0:
        return h.int('int', -0x80000000, 0x7fffffff)
    if kind == 1:
        return h.bytes('bytes', 3)
    if kind == 2:
        return h.unicode('text', 2)
    if kind == 3:
        return ''
    if kind == 4:
        return h.bool('bool')
    if kind == 5:
        return None
    if kind == 6:
        return h.f64('real')
    if kind == 7:
        return [h.int('int', 0, 9), h.bytes('bytes', 1)]
    if kind == 9:
        return {'y': h.int('int', 0, 9)}
    if kind == 10:
        return [{'y': h.int('int', 0, 9), 'z': h.bytes('bytes', 1)}, {'y': {}}]
    if kind == 11:
        return {}
    return []


def template(entry, copies, k):
    ident = h.int('id', 0, 0x7fffffff)
    body = {}
    for bname, kind, rep, fields in entry[3]:
        blocks = []
        for c in range(copies):
            b = {}
            for fname, tp, size in fields[:4]:
                b[fname] = value(k)
                k += 1
            blocks.append(b)
        body[bname] = blocks
    got = deliver({'id': ident, 'events': [{'message': entry[0], 'body': body}]}, [entry[0]])
    h.check(len(got) == 1, 'one event is one message')
    m = got[0]
    h.check(m.name == entry[0], 'of its name')
    h.check(m.event_queue_id == ident, 'with the id of the response')
    h.check(m.host is S['eq'].host, 'from the host of the queue')
    cs = []
    n = 0
    for bname in body:
        if copies:
            h.check(len(m[bname]) == copies, 'with its blocks')
        for c in range(copies):
            h.check(len(m[bname][c].vars) == len(body[bname][c]), 'and fields')
            for f in body[bname][c]:
                cs.append(h.eq(m[bname][c][f], body[bname][c][f]))
    h.check(h.and_(*cs), 'and values')
    if copies:
        h.check(len(m.blocks) == len(body), 'and no other blocks')


def other(n, kind):
    """messages that are not in the template"""
    ident = h.int('id', 0, 0x7fffffff)
    body = {}
    for k in range(n):
        body['key%d' % k] = value(k + kind)
    got = deliver({'id': ident, 'events': [{'message': 'EstablishAgentCommunication', 'body': body}]}, ['EstablishAgentCommunication'])
    h.check(len(got) == 1, 'one other event is one message')
    m = got[0]
    h.check(m.event_queue_id == ident and m.host is S['eq'].host, 'with id and host')
    b = m['Message_Data']
    h.check(len(b) == 1, 'its values are in one block')
    h.check(len(b[0].vars) == n, 'all of them')
    h.check(h.and_(*[h.eq(b[0][k], body[k]) for k in body]), 'as they are')


WORDS = ['id', 'message', 'body', 'events', 'name', 'host', 'done', 'ack', 'Message_Data', 'blocks', 'acks', 'self', 'data', 'vars', 'event_queue_id', 'error', '', ' ', 'a b', '0', u'\xe9t\xe9', u'name ', 'x' * 300]


def words(kind):
    """values may have any name, also those the response itself uses"""
    v = h.int('v', 0, 255)
    ws = [w for w in WORDS if w not in ('self',)]
    body = dict([(w, v + k) for k, w in enumerate(ws)])
    name = 'EstablishAgentCommunication' if kind == 'other' else 'StartPingCheck'
    got = deliver({'id': 3, 'events': [{'message': name, 'body': body if kind == 'other' else {'PingID': [body]}}]}, [name])
    b = got[0]['Message_Data' if kind == 'other' else 'PingID'][0]
    h.check(len(got) == 1 and len(b.vars) == len(ws), 'values of any name are kept')
    h.check(h.and_(*[b[w] == body[w] for w in ws]), 'as they are')
    h.check(got[0].name == name and got[0].event_queue_id == 3 and got[0].host is S['eq'].host, 'and change nothing else')


KINDS = ['StartPingCheck', 'EstablishAgentCommunication', 'CompletePingCheck', 'Unwatched']


def several(n):
    """several events of one response"""
    evs, want = [], []
    for k in range(n):
        name = h.choice('event', KINDS)
        v = h.int('value', 0, 255)
        if name in ('StartPingCheck', 'CompletePingCheck'):
            evs.append({'message': name, 'body': {'PingID': [{'PingID': v}]}})
        else:
            v = h.choice('shape', [v, {'PingID': v}, [{'PingID': v}]])
            evs.append({'message': name, 'body': {'x': v}})
        if name != 'Unwatched':
            want.append((name, v))
    ident = h.int('id', 0, 99)
    got = deliver({'id': ident, 'events': evs}, KINDS[:3])
    h.check(h.and_(*[m.event_queue_id == ident for m in got]), 'each has the id of the response')
    h.check(all([m.host is S['eq'].host for m in got]), 'and the host of the queue')
    h.check([m.name for m in got] == [w[0] for w in want], 'every watched event is handled once, in order')
    vals = []
    for m in got:
        if 'PingID' in m.blocks:
            vals.append(m['PingID'][0]['PingID'])
        else:
            vals.append(m['Message_Data'][0]['x'])
    h.check(h.eq(vals, [w[1] for w in want]), 'with its own values')


NEAR = ['startpingcheck', 'STARTPINGCHECK', 'StartPingCheck ', ' StartPingCheck', 'StartPing', 'StartPingCheck2', 'StartPingChecK', 'Start_PingCheck', '']


def near(first):
    """names that almost are those of the template, in one answer with the name itself"""
    v, w = h.int('v', 0, 255), h.int('w', 0, 255)
    name = h.choice('name', NEAR)
    evs = [{'message': name, 'body': {'PingID': [{'PingID': v}]}}, {'message': 'StartPingCheck', 'body': {'PingID': [{'PingID': w}]}}]
    if not first:
        evs.reverse()
    got = deliver({'id': 3, 'events': evs}, ['StartPingCheck', name])
    if not first:
        got.reverse()
    h.check([m.name for m in got] == [name, 'StartPingCheck'], 'names are told apart exactly')
    h.check(sorted(got[0].blocks) == ['Message_Data'] and h.flag(h.eq(got[0]['Message_Data'][0]['PingID'], [{'PingID': v}])),
            'a name that is not quite known has its values in one block')
    h.check(sorted(got[1].blocks) == ['PingID'] and h.flag(got[1]['PingID'][0]['PingID'] == w), 'the known one keeps its blocks')


def many(what, n):
    """many events, blocks or values"""
    v = h.int('v', 0, 255)
    if what == 'events':
        evs = [{'message': KINDS[k % 2], 'body': {'PingID': [{'PingID': k}]} if k % 2 == 0 else {'x': k}} for k in range(n - 1)]
        evs.append({'message': 'CompletePingCheck', 'body': {'PingID': [{'PingID': v}]}})
        got = deliver({'id': 7, 'events': evs}, KINDS[:3])
        h.check(len(got) == n, 'every event is one message, also when they are many')
        vals = [m['PingID'][0]['PingID'] if 'PingID' in m.blocks else m['Message_Data'][0]['x'] for m in got]
        h.check(vals == list(range(n - 1)) + [v], 'in order')
    elif what == 'blocks':
        body = {'PingID': [{'PingID': k} for k in range(n - 1)] + [{'PingID': v}]}
        got = deliver({'id': 7, 'events': [{'message': 'StartPingCheck', 'body': body}]}, KINDS)
        h.check(len(got) == 1 and len(got[0]['PingID']) == n, 'every repeat of a block is kept')
        h.check([b['PingID'] for b in got[0]['PingID']] == list(range(n - 1)) + [v], 'in order and with its value')
    else:
        name = 'StartPingCheck' if what == 'fields' else 'EstablishAgentCommunication'
        vals = dict([('f%d' % k, k) for k in range(n)])
        vals['f0'] = v
        got = deliver({'id': 7, 'events': [{'message': name, 'body': {'B': [vals]} if what == 'fields' else vals}]}, KINDS)
        b = got[0]['B' if what == 'fields' else 'Message_Data'][0]
        h.check(len(b.vars) == n and h.and_(*[b[k] == vals[k] for k in vals]), 'every value is kept')


def empty():
    h.check(deliver(None, KINDS) == [], 'no response, no messages')
    h.check(deliver({'id': h.int('id', 0, 9), 'events': []}, KINDS) == [], 'no events, no messages')


def cases(tier):
    out = [('empty', empty), ('names of values', words, ('other',)), ('names of fields', words, ('template',)),
           ('almost known, then known', near, (True,)), ('known, then almost known', near, (False,))]
    for w in ('events', 'blocks', 'fields', 'values'):
        for n in (17, 300):
            out.append(('%d %s' % (n, w), many, (w, n)))
    for n in (0, 1, 2, 3):
        for kind in range(12 if n else 1):
            out.append(('other with %d values, %d' % (n, kind), other, (n, kind)))
        if n:
            out.append(('%d events' % n, several, (n,)))
    for i, e in enumerate(lib_ref.ENTRIES):
        for c in ((1, 2) if tier == 'quick' else (0, 1, 2, 3)):
            for kind in ((i % 12,) if tier == 'quick' else range(12)):
                out.append(('%s with %d, %d' % (e[0], c, kind), template, (e, c, kind)))
    return out
