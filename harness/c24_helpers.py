"""C24: the helper conversions are exact, and inverses where they promise to be."""
import h
from pyogp.lib.base.helpers import Helpers, Wait, ListLLSDSerializer, DictLLSDSerializer, LLSDDeserializer
from pyogp.lib.base.datatypes import Vector3
from pyogp.lib.base.exc import DataParsingError, DeserializationFailed

INFO = dict(
    bounds='byte strings of 0 to 6 (quick) or 12 (thorough) and longer ones with two arbitrary bytes; all 2^32 integers and negative ones down to -2^31; every packed 8-bit and 16-bit value, at '
           'offsets 0 to 2 and 300, for five ranges (quick: three for 16 bits); durations of 0 to 5 seconds with arbitrary clock steps; LLSD values with arbitrary parts',
    outside='ranges other than the five; rounding of the floating-point formula beyond 1e-9 of the range',
    stubs='time.time plays an arbitrary non-decreasing clock; eventlet sleep returns at once or raises AssertionError; llbase.llsd: parsing a '
          'written document yields its value',
)
HEX = '0123456789ABCDEF'
RANGES = [(-1.0, 1.0), (0.0, 1.0), (-256.0, 256.0), (-64.0, 4096.0), (0.5, 3.0)]


def digit(c):
    return h.ite(ord(c) < 58, ord(c) - 48, ord(c) - 55)


def to_hex(n):
    b = h.bytes('b', n)
    s = Helpers.bytes_to_hex(b)
    h.check(len(s) == max(0, 3 * n - 1), 'two digits per byte and a blank between')
    for k in range(n):
        a, z = s[3 * k], s[3 * k + 1]
        for c in (a, z):
            h.check(h.or_(h.and_(c >= '0', c <= '9'), h.and_(c >= 'A', c <= 'F')), 'the digits are capital')
        h.check(digit(a) * 16 + digit(z) == ord(b[k]), 'and give the byte')
        if k:
            h.check(s[3 * k - 1] == ' ', 'with a blank between bytes')
    h.check(h.eq(Helpers.hex_to_ascii(s.replace(' ', '')), b), 'and the hex form reads back')


def from_hex(n):
    s = h.bytes('s', n)
    good = n % 2 == 0 and h.flag(h.and_(*[h.or_(h.and_(c >= '0', c <= '9'), h.and_(c >= 'A', c <= 'F'), h.and_(c >= 'a', c <= 'f')) for c in s]))
    try:
        r = Helpers.hex_to_ascii(s)
        ok = True
    except DataParsingError:
        ok = False
    h.check(ok == good, 'exactly hex digits in pairs are read, all else is a parsing error')
    if ok:
        h.check(len(r) == n // 2, 'a byte per pair')
        h.check(h.eq(Helpers.bytes_to_hex(r).replace(' ', ''), s.upper()), 'with its value')


def sextet(c):
    o = ord(c)
    return h.ite(c >= 'a', o - 71, h.ite(c >= 'A', o - 65, h.ite(c >= '0', o + 4, h.ite(c == '+', 62, 63))))


def base64(n):
    b = h.bytes('b', n)
    s = Helpers.bytes_to_base64(b)
    h.check(len(s) == (n + 2) // 3 * 4 + 1 and s[-1] == '\n', 'base64 has its length')
    full = n // 3 * 4 + [0, 2, 3][n % 3]
    h.check(s[full:-1] == '=' * (len(s) - 1 - full), 'and its padding')
    v = 0
    for c in s[:full]:
        h.check(h.or_(h.and_(c >= 'A', c <= 'Z'), h.and_(c >= 'a', c <= 'z'), h.and_(c >= '0', c <= '9'), c == '+', c == '/'), 'and its alphabet')
        v = v * 64 + sextet(c)
    rest = 6 * full - 8 * n
    w = 0
    for c in b:
        w = w * 256 + ord(c)
    h.check(v == w * 2 ** rest, 'it holds the bytes')


def long_bytes(n):
    """long byte strings"""
    b = h.bytes('b', 2)
    data = b[0] + '\0\x0f\xff z'[:5] * ((n - 2) // 5) + 'x' * ((n - 2) % 5) + b[1]
    s = Helpers.bytes_to_hex(data)
    h.check(len(s) == 3 * n - 1 and h.eq(s[:2] + s[-2:], Helpers.bytes_to_hex(b).replace(' ', '')), 'two digits per byte and a blank between, however many')
    h.check(s[3:-3] == ' '.join(['%02X' % ord(c) for c in data[1:-1]]), 'the bytes in order')
    h.check(h.eq(Helpers.hex_to_ascii(s.replace(' ', '')), data), 'and they read back')
    s = Helpers.bytes_to_base64(data)
    h.check(len(s) == (n + 2) // 3 * 4 + 1 and s[-1] == '\n' and '\n' not in s[4:-5], 'base64 is one line, however long')
    h.check(h.eq(s[:4], Helpers.bytes_to_base64(data[:3])[:4]), 'it starts with the first bytes')
    h.check(s[4:-5] == ''.join([Helpers.bytes_to_base64(data[k:k + 3])[:4] for k in range(3, (n - 1) // 3 * 3, 3)]), 'and holds all of them')


def uu(n):
    """the printable form"""
    b = h.bytes('b', n)
    s = Helpers.bytes_to_ascii(b)
    h.check(len(s) == 2 + (n + 2) // 3 * 4 and ord(s[0]) == 32 + n and s[-1] == '\n', 'the printable form has its length, and says that of the bytes')
    v = 0
    for c in s[1:-1]:
        h.check(h.and_(ord(c) >= 32, ord(c) < 96), 'its alphabet')
        v = v * 64 + (ord(c) - 32)
    w = 0
    for c in b:
        w = w * 256 + ord(c)
    h.check(v == w * 2 ** (6 * (len(s) - 2) - 8 * n), 'and the bytes')


def int_bytes():
    v = h.int('v', -0x80000000, 0xffffffff)
    s = Helpers.int_to_bytes(v)
    h.check(len(s) == 4, 'an int has four bytes')
    t = 0
    for k in (3, 2, 1, 0):
        t = t * 256 + ord(s[k])
    h.check(t == (v & 0xffffffff), 'the low byte comes first')


def packed(bits, lower, upper):
    off = h.choice('offset', [0, 1, 2, 300])
    b = 'x' * (300 if off == 300 else 0) + h.bytes('b', bits // 8 + 3)
    if bits == 8:
        u = ord(b[off])
        v = Helpers.packed_u8_to_float(b, off, lower, upper)
        top = 255.0
    else:
        u = ord(b[off]) + 256 * ord(b[off + 1])
        v = Helpers.packed_u16_to_float(b, off, lower, upper)
        top = 65535.0
    d = upper - lower
    want = u * (1.0 / top) * d + lower
    near = v - want
    tol = d * 1e-9
    step = d * (1.0 / top)
    h.check(h.or_(v == want, h.and_(near <= tol, near >= -tol), h.and_(v == 0.0, want < step + tol, want > -step - tol)),
            'a packed float is the value at its place in the range, values within a step of zero are zero')
    h.check(h.or_(v == 0.0, v >= step - tol, v <= -step + tol), 'a value within a step of zero is zero')
    if lower == 0:
        h.check(h.eq(v == 0.0, u == 0), 'in a range from zero only its first value is zero')
    if bits == 8:
        h.check(h.and_(v >= min(lower, 0.0) - tol, v <= upper + tol), 'and never leaves it')


def quaternion():
    """three components of a unit quaternion, with the sign that makes the fourth positive"""
    q = tuple([h.f64('xyzw'[k]) for k in range(4)])
    p = Helpers.pack_quaternion_to_vector3(q)
    h.check(len(p) == 3, 'three components remain')
    for k in range(3):
        if h.flag(q[3] >= 0):
            h.check(p[k] == q[k], 'as they are if the fourth is not negative')
        else:
            h.check(p[k] == -q[k], 'negated otherwise')


class Clock(object):
    def __init__(self, steps):
        self.steps = steps
        self.now = None
        self.reads = 0
        self.slept = 0
        self.fail = []
        self.hook = None

    def time(self):
        if self.now is None:
            self.now = self.start = h.int('start', 0, 1000)
        else:
            self.reads += 1
            self.now = self.now + (h.int('step', 0, 3) if self.reads <= self.steps else 1000)
        return self.now

    def sleep(self, *a):
        self.slept += 1
        if self.slept in self.fail:
            raise AssertionError('x')


def waited(duration):
    c = Clock(4)
    c.fail = h.choice('fail', [[], [1], [2], [1, 2]])
    h.patch_lib('time', 'time', c.time)
    h.patch_lib('eventlet.api', 'sleep', c.sleep)
    w = Wait(duration)
    h.check(c.now - c.start >= duration, 'it blocks for the whole duration')
    h.check(w.run() == True, 'and returns True')


def stopped():
    """a wait can be stopped"""
    c = Clock(4)
    h.patch_lib('time', 'time', c.time)
    h.patch_lib('eventlet.api', 'sleep', c.sleep)
    w = Wait(0)
    n = h.choice('sleeps', [1, 2, 3])
    w.duration = 100

    def sleep(*a):
        c.slept += 1
        if c.slept == n:
            w.stop()
        if c.slept > 6:
            raise ValueError('still waiting')
    h.patch_lib('eventlet.api', 'sleep', sleep)
    c.steps = 9
    w.run()
    h.check(c.slept == n, 'stop ends the waiting')


class Ticks(object):
    """a clock that advances by given steps"""
    def __init__(self, start, step):
        self.start = self.now = start
        self.step = step

    def time(self):
        return self.now

    def sleep(self, *a):
        self.now += self.step


def fractions(duration):
    """clocks do not show whole seconds"""
    c = Ticks(h.choice('start', [0.75, 1000000000.5, 1290000000.984375, 7]), h.choice('step', [0.125, 0.5, 0.984375, 1, 1.5, 30]))
    h.patch_lib('time', 'time', c.time)
    h.patch_lib('eventlet.api', 'sleep', c.sleep)
    h.check(Wait(duration).run() == True, 'a wait ends')
    h.check(c.now - c.start >= 2 * duration, 'each wait lasts its whole duration')
    h.check(c.now - c.start < 2 * (duration + c.step), 'and no longer than the step of the clock')


def nested():
    """a wait that runs inside another one"""
    c = Ticks(5, 1)
    h.patch_lib('time', 'time', c.time)
    h.patch_lib('eventlet.api', 'sleep', c.sleep)
    outer, inner = Wait(0), Wait(0)
    outer.duration = 6
    inner.duration = h.choice('inner', [2, 3, 50])
    at = h.choice('at', [1, 2, 3])
    stop = h.choice('stop', ['inner', 'outer', 'none'])
    seen = {'n': 0}

    def sleep(*a):
        c.now += 1
        seen['n'] += 1
        if seen['n'] == at:
            inner.run()
            seen['inner ended'] = c.now
        elif seen['n'] == at + 1:
            if stop == 'inner':
                inner.stop()
            elif stop == 'outer':
                outer.stop()
    h.patch_lib('eventlet.api', 'sleep', sleep)
    outer.run()
    first = 5 + at
    if stop == 'inner':
        h.check(seen['inner ended'] == first + 1, 'stopping a wait ends it')
        h.check(c.now == 11, 'and not the one around it')
    else:
        h.check(seen['inner ended'] == first + inner.duration, 'a wait inside another lasts its duration')
        h.check(c.now == (max(11, first + inner.duration) if stop == 'none' else first + inner.duration), 'and leaves the other alone')


def serializers():
    """lists and maps as LLSD"""
    v = h.choice('value', [{'a': h.int('v', -0x80000000, 0x7fffffff)}, {}, {'k': [1, 'x', True, 2.5]}])
    s = DictLLSDSerializer(v)
    h.check(s.content_type == 'application/llsd+xml', 'maps are LLSD')
    h.check(h.eq(LLSDDeserializer().deserialize(s.serialize()), v), 'and read back')
    l = h.choice('list', [[h.int('w', 0, 255), 'x'], [], [[]]])
    s = ListLLSDSerializer(l)
    h.check(s.content_type == 'application/llsd+xml', 'lists are LLSD')
    h.check(h.eq(LLSDDeserializer().deserialize(s.serialize()), l), 'and read back')


def garbage():
    """what is not LLSD is refused with its text"""
    t = h.choice('text', ['mumpitz', '<html', '<?xml version="1.0" ?><html></html>', '<llsd><integer>1</llsd>', ''])
    try:
        r = LLSDDeserializer().deserialize_string(t)
        h.check(False, 'text that is not LLSD is refused')
    except DeserializationFailed, e:
        h.check(e.payload == t, 'naming the text')
    h.check(LLSDDeserializer().deserialize(h.llsd_doc(0)) == 0, 'the number zero is LLSD')
    h.check(LLSDDeserializer().deserialize(h.llsd_doc(False)) == False, 'false is LLSD')
    h.check(LLSDDeserializer().deserialize(h.llsd_doc(None)) is None, 'undef is LLSD')
    h.check(LLSDDeserializer().deserialize(None) is None, 'nothing is nothing')
    v = h.int('v', -0x80000000, 0x7fffffff)
    h.check(h.eq(LLSDDeserializer().deserialize_file(File(h.llsd_doc([v, 'x']))), [v, 'x']), 'a file is read as its text')


class File(object):
    def __init__(self, text):
        self.text = text

    def read(self):
        return self.text


def cases(tier):
    out = [('int', int_bytes), ('quaternion', quaternion), ('stopped', stopped), ('serializers', serializers), ('garbage', garbage)]
    for n in range(7 if tier == 'quick' else 13):
        out.append(('hex of %d' % n, to_hex, (n,)))
        out.append(('base64 of %d' % n, base64, (n,)))
        out.append(('printable form of %d' % n, uu, (n,)))
    for n in range(5 if tier == 'quick' else 7):
        out.append(('hex text of %d' % n, from_hex, (n,)))
    out += [('bytes, %d' % n, long_bytes, (n,)) for n in ((70, 300) if tier == 'quick' else (57, 58, 63, 64, 65, 255, 256, 300, 1000, 5000))]
    out.append(('nested waits', nested))
    for d in (0, 1, 3, 2.5):
        out.append(('fractions, wait %s' % d, fractions, (d,)))
    for d in (0, 1, 2, 5, 3.7):
        out.append(('wait %s' % d, waited, (d,)))
    for b in (8, 16):
        for r in RANGES if b == 8 or tier != 'quick' else RANGES[:3]:
            out.append(('u%d in %s..%s' % (b, r[0], r[1]), packed, (b,) + r))
    return out
