"""C15: an event calls each of its subscribers, in order, with the arguments they subscribed with."""
import h
from pyogp.lib.base.events import Event

INFO = dict(
    bounds='histories of up to 4 (quick) or 5 (thorough) subscriptions, removals, clearings and notifications of three handlers with any '
           'integer arguments; handlers that unsubscribe, subscribe or raise while they are notified; 40 and 300 subscriptions and up to 40 notifications',
    outside='longer histories; concurrent threads',
    stubs='',
)


class Rec(object):
    def __init__(self, name, log):
        self.name, self.log = name, log

    def __call__(self, args, *a, **k):
        self.log.append((self.name, args, a, sorted(k.items())))


def history(steps):
    log = []
    hs = [Rec('h%d' % k, log) for k in range(2)]
    e = Event()
    want = []
    for k in range(steps):
        op = h.choice('op', ['subscribe', 'plus', 'unsubscribe', 'minus', 'notify', 'call', 'clear'])
        if op in ('notify', 'call'):
            v = h.int('value', 0, 1000)
            del log[:]
            if op == 'notify':
                e.notify(v)
            else:
                e(v)
            h.check(h.eq(log, [(r.name, v, a, sorted(kw.items())) for r, a, kw in want]), 'every subscriber is called once per subscription, in order')
            continue
        if op == 'clear':
            h.check(e.clearSubscribers() is e, 'clearing returns the event')
            want = []
        else:
            w = h.choice('handler', [0, 1])
            if op == 'plus' or op == 'minus':
                a, kw = (), {}
            else:
                x = h.int('arg', 0, 1)
                a, kw = (x,), {'key': x}
            if op == 'subscribe':
                h.check(e.subscribe(hs[w], *a, **kw) is e, 'subscribing returns the event')
                want.append((hs[w], a, kw))
            elif op == 'plus':
                e += hs[w]
                want.append((hs[w], a, kw))
            else:
                hit = -1
                for i, (r, b, kb) in enumerate(want):
                    if r is hs[w] and len(a) == len(b) and h.flag(h.eq(a, b)):
                        hit = i
                        break
                try:
                    if op == 'unsubscribe':
                        e.unsubscribe(hs[w], *a, **kw)
                    else:
                        e -= hs[w]
                    h.check(hit >= 0, 'removing what is not subscribed is refused')
                    del want[hit]
                except ValueError:
                    h.check(hit < 0, 'what is subscribed can be removed')
        h.check(len(e) == len(want), 'the length is the number of subscriptions')
        h.check(e.getSubscriberCount() == len(want), 'and so is the count')
        h.check(len(e.getSubscribers()) == len(want), 'and the list')


SHAPES = [((), {}), ((1,), {}), ((), {'key': 1}), ((1,), {'key': 1}), ((1, 2), {}), ((), {'other': 1}), ((None,), {})]


def shapes(op):
    """a removal matches handler, arguments and keywords"""
    log = []
    hs = [Rec('h%d' % k, log) for k in range(2)]
    e = Event()
    want = []
    for k in range(2):
        a, kw = h.choice('shape', SHAPES)
        r = hs[h.choice('handler', [0, 1])]
        e.subscribe(r, *a, **kw)
        want.append((r, a, kw))
    a, kw = h.choice('removed', SHAPES)
    if op == 'minus':
        a, kw = (), {}
    x = (hs[0], a, kw)
    n = 2
    try:
        if op == 'minus':
            e -= hs[0]
        else:
            e.unsubscribe(hs[0], *a, **kw)
        n = 1
    except ValueError:
        pass
    h.check((n == 1) == (x in want), 'exactly what is subscribed can be removed')
    if n == 1:
        want.remove(x)
    v = h.int('v', 0, 9)
    e(v)
    h.check(log == [(r.name, v, a, sorted(kw.items())) for r, a, kw in want], 'exactly the matching subscription is removed')


def reentrant(what):
    """handlers that change the subscriptions while they are notified"""
    e = Event()
    log = []
    n = h.choice('which', [0, 1, 2])

    def mk(k):
        def f(v):
            log.append((k, v))
            if k == n:
                if what == 'unsubscribe self':
                    e.unsubscribe(f)
                elif what == 'subscribe':
                    e.subscribe(extra)
                elif what == 'clear':
                    e.clearSubscribers()
        return f

    def extra(v):
        log.append(('extra', v))
    fs = [mk(k) for k in range(3)]
    for f in fs:
        e.subscribe(f)
    v = h.int('v', 0, 9)
    e(v)
    h.check(h.eq(log, [(0, v), (1, v), (2, v)]), 'everyone subscribed when it started is notified once')
    del log[:]
    w = h.int('w', 0, 9)
    e(w)
    if what == 'unsubscribe self':
        want = [k for k in range(3) if k != n]
    elif what == 'subscribe':
        want = [0, 1, 2, 'extra']
    else:
        want = []
    h.check(h.eq(log, [(k, w) for k in want]), 'the change shows in the next notification')


class Boom(Exception):
    pass


def failing():
    """an exception of a handler reaches the notifier; earlier handlers ran, the event stays usable"""
    e = Event()
    log = []
    n = h.choice('which', [0, 1, 2])

    def mk(k):
        def f(v):
            log.append(k)
            if k == n:
                raise Boom('x')
        return f
    for k in range(3):
        e.subscribe(mk(k))
    v = h.int('v', 0, 9)
    try:
        e(v)
        ok = False
    except Boom:
        ok = True
    h.check(ok, 'the exception of a handler is not swallowed')
    h.check(log == list(range(n + 1)), 'the handlers before it ran, once each')
    h.check(len(e) == 3, 'the subscriptions are kept')


def returning():
    """what a handler returns does not matter"""
    log = []
    e = Event()
    for k in range(3):
        e.subscribe(lambda v, k, r: (log.append((k, v)), r)[1], k, h.choice('returns', [None, True, False, 0, 1, '', 'x', [], e]))
    for v in (h.int('v', 0, 9), 7):
        del log[:]
        h.check(e(v) is None, 'a notification returns nothing')
        h.check(h.eq(log, [(k, v) for k in range(3)]), 'everyone is notified, whatever the handlers return')


class Thing(object):
    def __init__(self, name):
        self.name = name
        self.log = []

    def method(self, v, *a):
        self.log.append((v,) + a)


def methods():
    """bound methods are handlers too"""
    e = Event()
    things = [Thing('a'), Thing('b')]
    n = h.int('n', 0, 9)
    order = [h.choice('thing', [0, 1]) for k in range(3)]
    for k in order:
        e.subscribe(things[k].method, n)
    out = h.choice('removed', [0, 1])
    try:
        e.unsubscribe(things[out].method, n)
        ok = True
    except ValueError:
        ok = False
    h.check(ok == (out in order), 'a method can be removed exactly if it is subscribed')
    if ok:
        order.remove(out)
    e(5)
    for k in (0, 1):
        h.check(h.eq(things[k].log, [(5, n)] * order.count(k)), 'each object is notified by its own subscriptions')


def independent():
    a, b = Event(), Event()
    log = []
    a.subscribe(log.append)
    b(1)
    h.check(log == [] and len(b) == 0, 'events are independent')
    v = h.int('v', 0, 9)
    a(v)
    h.check(h.eq(log, [v]), 'each calls its own subscribers')


def many(n):
    """many subscriptions and notifications"""
    log = []
    hs = [Rec('h%d' % k, log) for k in range(5)]
    e = Event()
    x = h.int('x', 0, 1000)
    want = []
    for k in range(n):
        e.subscribe(hs[k * k % 5], x + k % 7, key=k)
        want.append(('h%d' % (k * k % 5), (x + k % 7,), k))
    i = h.choice('removed', [0, 1, n // 2, n - 1])
    e.unsubscribe(hs[i * i % 5], x + i % 7, key=i)
    del want[i]
    h.check(len(e) == n - 1, 'the count is exact, however many')
    for r in range(min(n, 40)):
        del log[:]
        e(r)
        h.check(h.eq(log, [(name, r, a, [('key', k)]) for name, a, k in want]), 'every subscriber is called once each time, however many')


def cases(tier):
    out = [('history of %d' % n, history, (n,)) for n in range(1, 4 if tier == 'quick' else 6)]
    out += [('shapes: ' + op, shapes, (op,)) for op in ('unsubscribe', 'minus')]
    for w in ('unsubscribe self', 'subscribe', 'clear'):
        out.append(('reentrant: ' + w, reentrant, (w,)))
    out += [('returning', returning), ('methods', methods), ('failing', failing), ('independent', independent), ('many', many, (40,)), ('very many', many, (300,))]
    return out
