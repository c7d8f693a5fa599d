"""Self-test of the engine: Python 2 idioms on symbolic operands, compared with Jython by the witness replay."""
import h
import struct, re, string, binascii, itertools, operator, collections, functools, copy, array, base64, contextlib, uuid, math, types, bisect, heapq, io, codecs, time, sys, textwrap, abc, numbers, json, Queue, weakref, datetime, inspect, zlib, hashlib
from collections import namedtuple, defaultdict, deque, OrderedDict
from contextlib import contextmanager
from functools import partial, reduce as freduce, wraps
from operator import itemgetter, attrgetter, methodcaller
INFO = dict(bounds='', outside='', stubs='')

class O(object):
    __slots__ = ('a', 'b')
    def __init__(self, a, b):
        self.a = a
        self.b = b

P = namedtuple('P', 'x y')
P2 = namedtuple('P2', ['name', 'size'])

@contextmanager
def managed(log, x):
    log.append('in')
    try:
        yield x
    finally:
        log.append('out')

class CM(object):
    def __init__(self): self.log = []
    def __enter__(self): return self
    def __exit__(self, t, v, tb):
        self.log.append(t is not None)
        return t is ValueError

def deco(f):
    @wraps(f)
    def g(*a, **k):
        return ('deco', f(*a, **k))
    return g

@deco
def decorated(x, y=2): return x + y

class Base(object):
    __metaclass__ = abc.ABCMeta
    registry = {}
    @classmethod
    def make(cls, x): return cls(x)
    def __init__(self, x): self._x = x
    @property
    def x(self): return self._x
    @x.setter
    def x(self, v): self._x = v + 1
    @staticmethod
    def st(a): return a * 2
    def __len__(self): return self._x & 3
    def __nonzero__(self): return self._x > 1
    def __getitem__(self, i): return (self._x, i)
    def __contains__(self, v): return v == self._x
    def __cmp__(self, o): return cmp(self._x, o._x)
    def __iter__(self): return iter([self._x, 1])
    def __call__(self, *a): return a + (self._x,)
    def __getattr__(self, n):
        if n.startswith('dyn_'): return n[4:]
        raise AttributeError(n)

class Sub(Base):
    def __init__(self, x):
        super(Sub, self).__init__(x)
        self.z = x
    def __eq__(self, o): return self._x == o._x
    def __hash__(self): return 7

def gen(n):
    for i in xrange(n):
        got = yield i
        if got: yield got

def ex(f):
    try:
        return ('ok', f())
    except Exception, e:
        return ('exc', e.__class__.__name__)

def B(n): return h.bytes('b', n)
def I(): return h.int('i', -5, 300)
def U8(): return h.int('i', 0, 255)

T = {}
def t(f):
    T[f.__name__] = f
    return f

@t
def join_gen(): return ''.join('%02X' % ord(x) for x in B(3))
@t
def join_map(): return ' '.join(map(lambda c: '%02x' % ord(c), B(2)))
@t
def hexenc(): return B(2).encode('hex')
@t
def hexcodec(): return codecs.encode(B(2), 'hex')
@t
def b64(): return base64.b64encode(B(3))
@t
def b64d(): return base64.encodestring(B(3))
@t
def b16(): return base64.b16encode(B(2))
@t
def encb64(): return B(2).encode('base64')
@t
def part(): return B(3).partition('\0')
@t
def rpart(): return B(3).rpartition('\0')
@t
def spl(): return B(3).split('\0')
@t
def spl1(): return B(3).split('\0', 1)
@t
def rspl(): return B(3).rsplit('\0', 1)
@t
def findz(): return B(3).find('\0'), B(3).rfind('\0')
@t
def idx(): return ex(lambda: B(3).index('\0'))
@t
def repl(): return B(3).replace('\0', 'ab')
@t
def repl1(): return B(3).replace('\0', '', 1)
@t
def countz(): return B(3).count('\0')
@t
def strips(): return B(2).strip(), B(2).lstrip('\0'), B(2).rstrip('\0 ')
@t
def starts(): return B(2).startswith('\xff'), B(2).endswith(('\0', 'a')), B(2).startswith(('\xff\xff', 'a'))
@t
def isx(): return B(1).isdigit(), B(1).isalpha(), B(1).isspace(), B(1).isalnum()
@t
def ulow(): return B(1).upper(), B(1).lower(), B(1).title(), B(1).swapcase()
@t
def trans(): return B(1).translate(string.maketrans('ab', 'xy'))
@t
def trans_del(): return B(2).translate(None, '\0')
@t
def trans_fn(): return B(2).translate(string.maketrans('', ''), '<>')
@t
def resub(): return re.sub('\\s+', ' ', B(2))
@t
def resplit(): return re.split(r'[\s,]+', B(2))
@t
def refind(): return re.findall(r'\d', B(2))
@t
def reiter(): return [m.start() for m in re.finditer(r'a', B(2))]
@t
def rezero(): return re.sub('\0(.)', lambda m: '\0' * ord(m.group(1)) if m.group(1) < 'c' else 'x', 'a\0' + h.bytes('b', 1), re.S)
@t
def rezero2():
    c = h.bytes('b', 1)
    return re.compile('\0.', re.DOTALL).sub(lambda m: '<%d>' % ord(m.group()[1]), 'a\0' + c)
@t
def regroups():
    m = re.match(r'(?P<a>\w)(?P<b>\d)?', B(2))
    return m and (m.groupdict(), m.span(), m.lastindex, m.end('a'))
@t
def researched():
    m = re.search(r'\d', B(2))
    return m is not None and m.group(0)
@t
def bytearr():
    a = bytearray(B(2))
    a.append(5)
    a.extend(B(2))
    a += 'x'
    return str(a), a[0], len(a)
@t
def bytearr2():
    a = bytearray()
    for c in B(2): a.append(ord(c))
    return bytes(a)
@t
def bytearr3(): return [b for b in bytearray(B(2))]
@t
def bytearr4(): return sum(bytearray(B(2)))
@t
def bytearr5():
    a = bytearray(B(3))
    a[1:2] = '\0\0'
    del a[0]
    return str(a), a.find('\0')
@t
def iobytes():
    s = io.BytesIO(B(3))
    return s.read(1), s.read(), s.tell()
@t
def iobytesw():
    s = io.BytesIO()
    s.write(B(2)); s.write('x')
    return s.getvalue()
@t
def cstr():
    from cStringIO import StringIO
    s = StringIO()
    s.write(B(2)); s.write('yy')
    return s.getvalue()
@t
def cstr_r():
    from StringIO import StringIO
    s = StringIO(B(3))
    a = s.read(1); s.seek(0, 2); e = s.tell(); s.seek(1)
    return a, e, s.read(1)
@t
def iter_read():
    from cStringIO import StringIO
    s = StringIO(B(3))
    return [c for c in iter(lambda: s.read(1), '')]
@t
def arr(): return array.array('B', B(2)).tolist()
@t
def arr2(): return array.array('B', [U8(), 1]).tostring()
@t
def memb(): return U8() in (1, 2, 250), U8() in set([3, 4]), B(1) in 'abc', U8() not in {5: 1}
@t
def dget(): return {1: 'a', 2: 'b'}.get(U8(), 'c')
@t
def ddisp(): return ex(lambda: {1: 'a', 2: 'b'}[U8()])
@t
def dpop(): 
    d = {1: 'a', 2: 'b'}
    r = d.pop(U8(), None)
    return r, sorted(d.items())
@t
def dset():
    d = {}
    d[U8()] = 1
    d.setdefault(7, []).append(2) if 7 not in d else None
    return sorted(d)
@t
def dupd():
    d = dict(a=1); d.update(b=U8()); d.update({'c': 2}, d=3); d.update([('e', 4)])
    return sorted(d.iteritems())
@t
def dfromkeys(): return sorted(dict.fromkeys([U8(), 3], 0).items())
@t
def dviews():
    d = {1: U8()}
    return list(d.viewitems()), list(d.viewkeys()), d.values(), d.has_key(1), len(d)
@t
def dcomp(): return {k: v for k, v in zip('ab', [U8(), 2])}
@t
def scomp(): return sorted({x % 3 for x in [U8(), 4]})
@t
def ddict():
    d = defaultdict(list)
    d[U8() & 1].append(3)
    d['x'].append(4)
    return sorted(d.items()), 'y' in d
@t
def ddint():
    d = defaultdict(int); d[U8()] += 1; d[5] += 1
    return sorted(d.values())
@t
def odict():
    d = OrderedDict(); d['b'] = U8(); d['a'] = 1
    return d.keys(), d.popitem()
@t
def counter():
    c = collections.Counter(B(2))
    return sorted(c.values())
@t
def dq():
    d = deque([U8(), 2]); d.append(3); d.appendleft(0); d.rotate(1)
    return list(d), d.popleft(), d.pop(), len(d)
@t
def nt():
    p = P(U8(), 2)
    x, y = p
    return p.x, p[1], x, y, p._replace(x=3).x, p == (p.x, 2), isinstance(p, tuple), p._fields, len(p), P(y=1, x=2).x
@t
def nt2():
    d = {P2('a', 1): U8()}
    return d[P2('a', 1)], P2._make(['q', 2]).size, P2(*('a', 2)) in [('a', 2)]
@t
def sl(): 
    b = B(4)
    return b[::-1], b[-2:], b[:-1], b[::2], b[1:3], b[10:], b[-1]
@t
def slvar():
    n = h.int('n', 0, 4)
    b = B(4)
    return b[n:], b[:n], b[-n:], len(b[n:n + 2])
@t
def mulvar(): return '\0' * h.int('n', -1, 4), 2 * B(1)
@t
def ljust(): return B(1).ljust(3, '\0'), B(1).rjust(2), B(1).zfill(3), B(1).center(3)
@t
def fmt(): return '%d %5d %-4d| %05d %x %X %o %s %r %c %+d %e' % ((I(),) * 10 + (65, I(), 1.5))[:0] if 0 else '%d|%5d|%-4d|%05d|%s' % (I(), I(), I(), I(), I())
@t
def fmt2(): return '{0} {1!r} {a:>4} {a:02x}'.format(5, 'x', a=7), '{}{}'.format(1, 2)
@t
def fmt3(): return '{0:02X}'.format(U8() & 3), format(U8() & 3, '02x')
@t
def fmtd(): return '%(a)s-%(b)d' % {'a': B(1), 'b': 3}
@t
def hexf(): return hex(U8() & 7), oct(U8() & 7), bin(U8() & 3)
@t
def num(): 
    i = I()
    return i // 3, i % 3, -i, ~i, i >> 1, i << 3, i & 0xf0, i | 1, i ^ 5, abs(i), divmod(i, 7), i / 2, pow(i, 2), i ** 2, cmp(i, 3), bool(i), int(i), long(i) == i, min(i, 4), max(i, 4, 9)
@t
def chained():
    i = I()
    return 0 <= i < 10, 1 < i <= 2 or i == 5, not i, i and 3, i or 4, 1 if i > 3 else 2
@t
def unp():
    a, (b, c) = U8(), (1, 2)
    (x,) = [a]
    [p, q] = a, b
    return a, b, c, x, p, q
@t
def aug():
    x = U8(); x += 1; x -= 2; x *= 3; x |= 1; x &= 0xff; x ^= 2; x <<= 1; x >>= 1; x %= 100; x //= 3
    l = [1]; l += [x]; l *= 2
    return x, l
@t
def gens():
    g = gen(2)
    return g.next(), g.send(U8()), list(g), next(gen(0), 'none')
@t
def genexp(): return sum(x for x in [U8(), 1]), any(x > 3 for x in [U8()]), all(c == '\0' for c in B(2)), max(ord(c) for c in B(2))
@t
def zips(): return zip(B(2), 'ab'), zip(*[(1, U8()), (2, 3)]), map(None, [1, 2], [U8()]), map(lambda a, b: a + b, [1], [U8()])
@t
def filt(): return filter(lambda c: c != '\0', B(2)), filter(None, [U8(), 0, 1]), filter(str.isdigit, B(1))
@t
def redu(): return reduce(lambda a, b: a * 256 + b, map(ord, B(3)), 0), freduce(operator.add, [U8(), 1])
@t
def enum(): return [(i, c) for i, c in enumerate(B(2), 1)], [x for x in reversed([U8(), 1])], sorted([U8(), 100], reverse=True)
@t
def srt():
    l = [(U8(), 'a'), (100, 'b')]
    l.sort(key=lambda p: p[0])
    m = sorted(l, key=itemgetter(1)); n = sorted(l, cmp=lambda a, b: cmp(b[0], a[0]))
    return l, m, n
@t
def lst():
    l = [1, U8(), 3]
    l.insert(0, 9); l.remove(9); l.extend((4,)); l.reverse(); x = l.pop(); y = l.index(3); del l[0]; l[0:1] = [7, 8]
    return l, x, y, l.count(7), l[-1], l + [1], l * 2, [1] in [[1]], l[:] == l
@t
def lstcmp(): return [1, U8()] == [1, 2], (1, U8()) < (1, 5), [U8()] > [3], 'a' < B(1)
@t
def setops():
    s = set([1, U8()]); s.add(2); s.discard(9); u = s | set([3]); return sorted(u), 2 in s, s >= set([1]), len(s - set([1, 2]))
@t
def fset(): return frozenset([1, 2]) == frozenset([2, 1]), U8() in frozenset([3])
@t
def withs():
    log = []
    with managed(log, U8()) as x:
        log.append(x)
    c = CM()
    with c as d, managed(log, 1):
        raise ValueError('q')
    return log, c.log
@t
def tr():
    out = []
    for k in range(3):
        try:
            if U8() == k: raise KeyError(k)
            if k == 2: raise ValueError, 'v'
        except (KeyError, IndexError), e:
            out.append(e.args[0])
            continue
        except ValueError as e:
            out.append(str(e))
        else:
            out.append('else')
        finally:
            out.append('fin')
    return out
@t
def trfin():
    def f():
        for k in range(3):
            try:
                if k == 1: return k + U8()
            finally:
                k = 9
    return f()
@t
def forelse():
    for c in B(2):
        if c == '\0': break
    else:
        return 'none'
    return 'some'
@t
def whileelse():
    i = U8() & 3
    n = 0
    while i:
        i -= 1; n += 1
        if n == 2: break
    else:
        n = 10
    return n
@t
def closures():
    fs = [lambda x, k=k: x + k for k in range(2)]
    acc = {'n': 0}
    def inc(): acc['n'] += U8()
    inc(); inc()
    return [f(U8()) for f in fs], acc['n']
@t
def part_(): return partial(operator.add, 1)(U8()), partial(int, base=2)('11'), partial(struct.pack, '<H')(U8())
@t
def apply_(): return apply(operator.sub, (5, U8())), (lambda *a, **k: (a, sorted(k)))(1, *(2, U8()), **{'z': 1})
@t
def decor(): return decorated(U8()), decorated(1, y=U8()), decorated.__name__
@t
def cls():
    s = Sub.make(U8())
    s.x = 5
    r = [len(s), bool(s), s[3], 5 in s, list(s), s(1), s.st(3), s.dyn_a, isinstance(s, Base), issubclass(Sub, Base), s.__class__.__name__, hasattr(s, 'nope'), getattr(s, 'nope', 1), s == Sub(6), s.z]
    setattr(s, 'w', 2); del s.w
    return r, 'w' in s.__dict__, sorted(vars(s).keys()), callable(s)
@t
def cmpo(): return Base(U8()) < Base(5), sorted([Base(3), Base(1)])[0].x, max(Base(1), Base(U8())).x
@t
def slots(): return ex(lambda: setattr(O(1, 2), 'c', 3)), O(U8(), 2).a, attrgetter('a')(O(3, 4)), attrgetter('a', 'b')(O(3, U8())), methodcaller('upper')(B(1))
@t
def packs():
    return struct.pack('>BHI', U8(), 1, 2), struct.Struct('<H').pack(U8()), struct.Struct('<H').size, struct.calcsize('>IBB'), struct.pack('!%dB' % 2, U8(), 3), struct.pack('3s', B(2)), struct.pack('4x')
@t
def unpacks():
    b = B(4)
    return struct.unpack('>I', b), struct.unpack('<HH', b), struct.unpack('4B', b), struct.unpack_from('>B', b, 2), struct.Struct('>H').unpack(b[:2]), struct.unpack('2s2s', b), struct.unpack('>%dH' % 2, b), struct.Struct('>H').unpack_from(b, 1)
@t
def unperr(): return ex(lambda: struct.unpack('>I', B(3))), ex(lambda: ord(B(2)))
@t
def intfrom(): return int(binascii.hexlify(B(2)), 16), int('0x1f', 16), int(' 12 '), string.atoi('0x10', 0), int('017', 0)
@t
def tohex(): return binascii.hexlify(B(2)), binascii.b2a_hex(B(1)), binascii.unhexlify('0a'), '0aff'.decode('hex')
@t
def toord(): return map(ord, B(2)), [chr(x) for x in [U8()]], unichr(U8())
@t
def uni(): return ex(lambda: B(2).decode('utf-8')), unicode('ab') + u'c', u'\xe9'.encode('utf-8'), ex(lambda: B(1).decode('ascii')), ex(lambda: unicode(B(1), 'latin-1')), ex(lambda: unicode(B(1)))
@t
def unienc():
    u = h.unicode('u', 2)
    return u.encode('utf-8'), ex(lambda: u.encode('ascii')), ex(lambda: str(u)), u.encode('ascii', 'replace'), isinstance(u, basestring), isinstance(u, unicode), ex(lambda: '%s' % u == u), u.encode('utf_8'), codecs.encode(u, 'utf-8')
@t
def isin(): return isinstance(U8(), (int, long)), isinstance(B(1), str), type(U8()) is int, type(B(1)) == str, isinstance(1.5, float), isinstance(U8(), numbers.Number), isinstance([], collections.Sequence), isinstance({}, collections.Mapping)
@t
def typ(): return type(B(1)) in (str, unicode), type([]) is types.ListType, type(None) is types.NoneType, type(True) is bool, isinstance(True, int), types.StringTypes
@t
def itert(): 
    return (list(itertools.chain([1], [U8()])), list(itertools.chain.from_iterable([[1], [U8()]])), list(itertools.islice(B(3), 1, None)), list(itertools.izip(B(2), itertools.count())), [(k, len(list(g))) for k, g in itertools.groupby(B(2))],
            list(itertools.takewhile(lambda c: c != '\0', B(2))), list(itertools.dropwhile(lambda c: c == '\0', B(2))), list(itertools.izip_longest([1], [2, U8()])), list(itertools.ifilter(None, [0, U8()])), list(itertools.starmap(operator.add, [(1, U8())])), list(itertools.repeat(U8(), 2)),
            list(itertools.imap(ord, B(2))), list(itertools.product([1, 2], [U8()])), [list(x) for x in itertools.tee([U8()])])
@t
def groupzero():
    out = ''
    for z, g in itertools.groupby(B(3), key=lambda c: c == '\0'):
        run = list(g)
        out += '\0' + chr(len(run)) if z else ''.join(run)
    return out
@t
def cop():
    a = [1, [U8()]]
    b = copy.copy(a); c = copy.deepcopy(a)
    a[1].append(2)
    d = {'x': [1]}; e = d.copy(); e['x'].append(2)
    return b, c, d, copy.copy(O(1, 2)).a
@t
def bis():
    l = [1, 5, 9]
    return bisect.bisect_left(l, U8()), bisect.insort(l, 4), l
@t
def hq():
    l = [5, 1]; heapq.heapify(l); heapq.heappush(l, U8())
    return heapq.heappop(l), len(l)
@t
def que():
    q = Queue.Queue(); q.put(U8()); q.put(2)
    return q.get(), q.get_nowait(), q.empty(), q.qsize(), ex(q.get_nowait)
@t
def mth(): return math.fabs(-1.5), math.ceil(1.2), math.floor(1.5), math.sqrt(4.0), math.pi > 3, math.isnan(float('nan')), math.copysign(1, -2), math.hypot(3, 4), round(2.5), math.fsum([.5, .5])
@t
def flt():
    f = h.f32('f')
    return f + 1.0, f * 2, -f, abs(f), f == f, f > 0, f if f else 0.0, float(f), math.fabs(f), cmp(f, 0.0), min(f, 1.0)
@t
def fltstr(): return repr(1.5), str(0.1), '%f' % 1.5, '%.2f' % 2.345, '%g' % 1e20, repr(1e16), str(1.0)
@t
def uu():
    u = uuid.UUID(bytes=h.bytes('b', 16))
    return u.bytes, u == uuid.UUID(bytes=u.bytes), u.hex, str(u), u.int >> 120, u.get_bytes() == u.bytes, uuid.UUID(int=5).hex, uuid.UUID(hex='0' * 32).int, uuid.UUID(str(u)) == u, hash(u) == hash(uuid.UUID(bytes=u.bytes)), len(u.fields), u.urn[:9]
@t
def strs(): return str(U8()), repr(U8()), str(None), repr(B(1)), str([1, 'a']), repr({'a': 1}), `U8()`
@t
def prints():
    print 'x', U8(),
    print >>sys.stderr, 'y'
    print
    return 1
@t
def glob_():
    global G
    G = U8()
    return G, 'G' in globals(), locals().keys() == []
@t
def exe(): return eval('1 + 2'), eval('x + 1', {'x': U8()})
@t
def inti(): return intern('a') == 'a', id(1) == id(1), isinstance(O, type), hash('a') == hash('a')
@t
def rng(): return range(U8() & 3), list(xrange(3, 0, -1)), len(xrange(U8() & 3)), range(0, 10, 4), xrange(5)[2], 3 in xrange(5)
@t
def nestfn():
    def outer(n):
        def inner(m):
            return n + m if m else inner(m + 1)
        return inner
    return outer(U8())(0)
@t
def dispatch():
    table = {'a': lambda: 1, 'b': lambda: 2}
    return table.get(B(1), lambda: 0)()
@t
def getat():
    return getattr(struct, 'pack')('B', U8()), getattr('abc', 'upper')(), getattr(O(1, 2), 'ab'[U8() & 1])
@t
def asserts(): 
    def f(): assert U8() < 100, 'big'
    return ex(f)
@t
def rais():
    class E(Exception):
        def __init__(self, a, b=None): self.a = a; self.b = b
        def __str__(self): return 'E %s' % self.a
    def f():
        try:
            raise E(U8(), b=3)
        except E, e:
            r = (e.a, e.b, str(e) != '', e.args)
            try:
                raise
            except Exception, x:
                return r, x is e, sys.exc_info()[0] is E
    return f()
@t
def rais3():
    try:
        try:
            raise KeyError('a')
        except KeyError:
            t, v, tb = sys.exc_info()
            raise ValueError, ValueError('b'), tb
    except ValueError, e:
        return e.args, isinstance(e, StandardError), issubclass(IOError, EnvironmentError), e.message
@t
def env(): return ex(lambda: {}['a']), ex(lambda: [][0]), ex(lambda: None.x), ex(lambda: int('z')), ex(lambda: 'a' + 1), ex(lambda: len(5)), ex(lambda: undefined_name), ex(lambda: [].pop()), ex(lambda: {}.popitem()), ex(lambda: iter(5)), ex(lambda: (1, 2)[2]), ex(lambda: 'a'.index('b')), ex(lambda: chr(256)), ex(lambda: [].remove(1)), ex(lambda: 1 / 0)
@t
def unbound():
    def f():
        if U8() > 3: q = 1
        return q
    return ex(f)
@t
def delv():
    x = U8()
    del x
    try:
        return x
    except NameError, e:
        return e.__class__.__name__
@t
def argn(): return ex(lambda: (lambda a: a)()), ex(lambda: (lambda a: a)(1, b=2))
@t
def tupdef():
    def f((a, b), c): return a + b + c
    return f((1, U8()), 2), (lambda (a, b): a)((U8(), 1))
@t
def xorb(): return ''.join(chr(ord(a) ^ ord(b)) for a, b in zip(B(2), '\x01\x02'))
@t
def int_bytes():
    i = h.int('i', 0, 0xffffffff)
    return [(i >> s) & 0xff for s in (0, 8, 16, 24)], chr(i & 255), struct.pack('<I', i), ('%08x' % (i & 0xff)).decode('hex'), i.bit_length() if 0 else 0
@t
def bmem():
    m = memoryview(B(3))
    return m[0], m[1:].tobytes(), len(m)
@t
def buf(): return str(buffer(B(3), 1, 1)), str(buffer(B(3), 1))
@t
def subst(): return string.join(['a', B(1)], ''), string.replace('aab', 'a', 'c'), string.split('a b'), string.upper('a'), string.strip(' a '), string.zfill('1', 3), string.lower('A'), string.letters[:3], string.digits, string.hexdigits[:3]
@t
def tmpl(): return string.Template('$a b').substitute(a=1)
@t
def splitlines(): return 'a\nb\r\nc'.splitlines(), B(2).splitlines(), 'a\tb'.expandtabs(4)
@t
def cmpnone(): return None < 1, None == U8(), U8() != None, None is None, U8() is None, (None or 5)
@t
def strmul(): return ''.join(['\0'] * (U8() & 3)), [None] * 2, '-' * 3
@t
def strin(): return 'a' in B(2), '\0\0' in B(3), B(1) in ('a', 'b'), B(1) not in 'ab'
@t
def setattrs():
    o = Base(1)
    for n, v in (('X', U8()), ('Y', 2)): setattr(o, n, v)
    return o.X, o.Y, [getattr(o, n) for n in 'XY'], o.__dict__.get('X'), sorted(o.__dict__)
@t
def lam(): return map(lambda (k, v): (v, k), [(1, U8())]), (lambda x: x and x + 1)(U8())
@t
def boolops(): return True + U8(), sum([True, U8() > 3]), int(U8() > 5), [1, 2][U8() > 9], bool('') | True, True & (U8() > 3), (U8() > 3) == True, not (U8() > 3), (U8() > 3) is True, (U8() > 3) != False
@t
def wref():
    o = Base(4)
    r = weakref.ref(o)
    return r() is o
@t
def crc(): return zlib.crc32('abc'), hashlib.md5('a').hexdigest()
@t
def date(): return datetime.date(2010, 1, 2).isoformat()
@t
def insp(): return inspect.isclass(O), inspect.isfunction(ex)
@t
def tw(): return textwrap.dedent('  a')
@t
def js(): return json.dumps({'a': 1}), json.loads('[1]')
@t
def coll_abc():
    class M(collections.MutableMapping):
        def __init__(self): self.d = {}
        def __getitem__(self, k): return self.d[k]
        def __setitem__(self, k, v): self.d[k] = v
        def __delitem__(self, k): del self.d[k]
        def __iter__(self): return iter(self.d)
        def __len__(self): return len(self.d)
    m = M(); m['a'] = U8()
    return m.get('a'), m.get('b', 1), 'a' in m, m.items()
@t
def dictsub():
    class D(dict):
        def __missing__(self, k): return 'm'
        def __getattr__(self, k): return self[k]
    d = D(a=U8())
    return d['a'], d['q'], d.a, 'q' in d
@t
def lstsub():
    class L(list):
        def push(self, x): self.append(x); return self
    return L([1]).push(U8()), len(L([1, 2])), L([3])[0]
@t
def strsub():
    class S(str): pass
    return S('a') + 'b', isinstance(S('a'), str), S('abc').upper(), S('q') == 'q'
@t
def intsub():
    class N(int): pass
    return N(3) + U8(), N(4) == 4
@t
def newstyle():
    class A: 
        n = 0
        def f(self): self.n += 1; return self
    a = A(); a.f().f()
    return a.n, A.n, a.__class__ is A
@t
def classattr():
    class A(object):
        shared = []
        names = dict((c, ord(c)) for c in 'ab')
        def __new__(cls, *a):
            o = object.__new__(cls); o.made = True
            return o
    A.shared.append(U8())
    return A().shared, A().made, A.names['a'], A.__name__, A.__mro__[-1] is object
@t
def mapstr(): return map(str, [1, U8() & 1]), map(float, ['1', '2.5']), map(int, '12'), map(str.strip, [' a'])
@t
def minmax(): return min([3, U8()]), max(3, U8(), key=lambda x: -x), min(B(2)), sum([[1], [U8()]], [])
@t
def slice_obj(): s = slice(1, 3); return B(4)[s], [1, 2, 3][s], s.start
@t
def listmut():
    l = [1, 2, U8()]
    for x in l[:]:
        if x > 1: l.remove(x)
    return l
@t
def nestcomp(): return [(a, b) for a in (1, 2) if a > 1 for b in (U8(), 4)], [[x for x in y] for y in ('ab', B(1))]
@t
def leak():
    [zz for zz in (1, U8())]
    return zz
@t
def tern(): return ('a', 'b')[U8() > 3], (U8() > 3 and 'x' or 'y')
@t
def iterp():
    it = iter(B(3))
    return [(a, next(it, None)) for a in it]
@t
def windows():
    b = B(4)
    return [b[i:i + 2] for i in xrange(0, len(b), 2)], zip(*[iter(b)] * 2)
@t
def lenc(): return len(B(2)) == 2, not B(0), bool(B(1)), len([]) < U8()
@t
def big(): return 1 << 40, 2 ** 64, 0xffffffff + U8(), long('5'), 5L, sys.maxint > 5, -7 / 2, -7 % 3, 7 // -2
@t
def sha(): return sorted(['b', 'A'], key=str.lower), sorted('ba'), ''.join(sorted(B(2)))
@t
def globals_fn(): return 'deco' in globals(), vars(O(1, 2).__class__).has_key('__init__'), dir(P)[:0]

def run(name):
    h.observe('r', ex(T[name]))
    h.check(True, 'runs')

def cases(tier):
    return [(n, run, (n,)) for n in sorted(T)]
