"""C23: binary datatypes reproduce their wire bytes (Vector3, Quaternion, UUID)."""
import struct
import math
import h
from pyogp.lib.base.datatypes import Vector3, Quaternion, UUID

INFO = dict(
    bounds='buffers of up to 40 symbolic bytes, offsets 0..5 and (16 bytes in a long buffer) 300 or (thorough) up to 65536; all finite/infinite floats; all 128-bit identifiers; vector texts of up to 2 digits and 1 decimal (quick) or '
           '5 digits or 3 decimals (thorough), signed, in three forms and three separators',
    outside='vector texts in exponent notation; NaN payloads (the JVM canonicalises them)',
    stubs='struct, uuid and math are engine models of the Jython library',
)


def le_float(b, o):
    return struct.unpack('<f', b[o:o + 4])[0]


def no_nan(b, off, n):
    for k in range(n):
        h.assume(h.not_(h.is_nan(le_float(b, off + 4 * k))))


def vec_bytes(off):
    b = h.bytes('b', off + 12 + 3)
    no_nan(b, off, 3)
    v = Vector3(bytes=b, offset=off)
    h.check(h.eq(v.get_bytes(), b[off:off + 12]), 'vector bytes reproduce the input')
    h.check(h.eq(v.X, le_float(b, off)), 'X is the first little-endian float')
    h.check(h.eq(v.Y, le_float(b, off + 4)), 'Y is the second little-endian float')
    h.check(h.eq(v.Z, le_float(b, off + 8)), 'Z is the third little-endian float')
    h.check(h.eq(v.data(), (v.X, v.Y, v.Z)), 'data is the triple')
    h.check(h.eq(v(), (v.X, v.Y, v.Z)), 'call is the triple')
    h.observe('xyz', [v.X, v.Y, v.Z])


def vec_values():
    x, y, z = h.f32('x'), h.f32('y'), h.f32('z')
    v = Vector3(X=x, Y=y, Z=z)
    raw = v.get_bytes()
    h.check(len(raw) == 12, 'vector is 12 bytes')
    w = Vector3(bytes=raw, offset=0)
    h.check(h.eq(w.data(), (x, y, z)), 'values survive the byte form')
    c = v.copy()
    h.check(c is not v, 'copy is another object')
    h.check(h.eq(c.data(), (x, y, z)), 'copy has the same values')
    c.X = 1.0
    c.Y = 2.0
    c.Z = 3.0
    h.check(h.eq(v.data(), (x, y, z)), 'changing the copy leaves the original')
    h.observe('raw', raw)


def vec_ints():
    x = h.int('x', -1000, 1000)
    y = h.int('y', -1000, 1000)
    v = Vector3(X=x, Y=y, Z=0)
    h.check(h.and_(v.X == x, v.Y == y, v.Z == 0), 'integers become equal floats')


def quat_bytes(off):
    b = h.bytes('b', off + 16 + 2)
    no_nan(b, off, 4)
    q = Quaternion(bytes=b, offset=off)
    h.check(h.eq(q.get_bytes(), b[off:off + 16]), 'quaternion bytes reproduce the input')
    h.check(h.eq(q.data(), (le_float(b, off), le_float(b, off + 4), le_float(b, off + 8), le_float(b, off + 12))), 'components in order')
    h.check(h.eq(q(), q.data()), 'call is the tuple')


def quat_values():
    x, y, z, w = h.f32('x'), h.f32('y'), h.f32('z'), h.f32('w')
    q = Quaternion(X=x, Y=y, Z=z, W=w)
    raw = q.get_bytes()
    h.check(len(raw) == 16, 'quaternion is 16 bytes')
    r = Quaternion(bytes=raw, offset=0)
    h.check(h.eq(r.data(), (x, y, z, w)), 'values survive the byte form')
    c = q.copy()
    h.check(h.eq(c.data(), (x, y, z, w)), 'copy has the same values')
    c.X = c.Y = c.Z = c.W = 0.5
    h.check(h.eq(q.data(), (x, y, z, w)), 'changing the copy leaves the original')


def quat_short(off):
    b = h.bytes('b', off + 12)
    no_nan(b, off, 3)
    x, y, z = le_float(b, off), le_float(b, off + 4), le_float(b, off + 8)
    q = Quaternion(bytes=b, offset=off)
    h.check(h.eq((q.X, q.Y, q.Z), (x, y, z)), 'components of the 12-byte form')
    t = 1.0 - (x * x + y * y + z * z)
    if t > 0:
        h.check(q.W == math.sqrt(t), 'W completes the unit quaternion')
    else:
        h.check(q.W == 0, 'W is zero when the rest is not inside the unit ball')


def quat_outside():
    """the 12-byte form with components that leave nothing for W"""
    x, y, z = h.choice('xyz', [(1.0, 0.0, 0.0), (0.0, -1.0, 0.0), (0.6, 0.8, 0.0), (0.75, 0.75, 0.75), (-3.0, 4.0, 12.0), (1.0000001, 0.0, 0.0), (0.0, 0.0, 100.0), (-0.9, 0.9, -0.9)])
    raw = struct.pack('<fff', x, y, z)
    off = h.choice('offset', [0, 3])
    q = Quaternion(bytes='\7' * off + raw, offset=off)
    h.check(q.get_bytes()[:12] == raw, 'the three components stay as they came')
    h.check(q.data()[:3] == struct.unpack('<fff', raw), 'also as values')
    h.check(0 <= q.W < 0.001, 'and nothing is left for the fourth')


def quat_inside():
    x, y, z, w = h.choice('xyzw', [(0.0, 0.0, 0.0, 1.0), (0.5, 0.5, 0.5, 0.5), (-0.5, 0.5, -0.5, 0.5), (0.75, 0.0, 0.25, 0.375 ** 0.5), (0.0, 0.0, -0.0, 1.0)])
    raw = struct.pack('<fff', x, y, z)
    off = h.choice('offset', [0, 3])
    q = Quaternion(bytes='\7' * off + raw, offset=off)
    h.check(q.get_bytes()[:12] == raw, 'the three components stay')
    h.check(abs(q.W - w) < 0.000001, 'the fourth completes the unit')


def uuid_bytes(off):
    b = h.bytes('b', off + 16 + 3)
    u = UUID(bytes=b, offset=off)
    h.check(h.eq(u.get_bytes(), b[off:off + 16]), 'uuid bytes reproduce the input')
    t = str(u)
    h.check(len(t) == 36, 'text form has 36 characters')
    v = UUID(t)
    h.check(h.eq(v.get_bytes(), b[off:off + 16]), 'uuid survives its text form')
    h.check(v == u, 'and is equal')
    h.check(h.eq(u.data().bytes, b[off:off + 16]) and h.eq(u().bytes, b[off:off + 16]), 'the standard form has the same bytes')
    c = u.copy()
    h.check(h.eq(c.get_bytes(), u.get_bytes()), 'copy has the same bytes')
    h.check(c == u, 'copy is equal')
    h.observe('u', u.get_bytes())


def far(off):
    """values that lie far inside a buffer"""
    b = h.bytes('b', 16)
    no_nan(b, 0, 4)
    buf = '\x01\x42\xff' * (off // 3) + 'abc'[:off % 3] + b + 'xyz'
    h.check(h.eq(Vector3(bytes=buf, offset=off).get_bytes(), b[:12]), 'a vector is read where it lies')
    q = Quaternion(bytes=buf, offset=off)
    h.check(h.eq(q.get_bytes(), b), 'a quaternion is')
    h.check(h.eq(UUID(bytes=buf, offset=off).get_bytes(), b), 'and an identifier')


def uuid_xor():
    a, b = h.bytes('a', 16), h.bytes('b', 16)
    u, v = UUID(bytes=a, offset=0), UUID(bytes=b, offset=0)
    w = u ^ v
    exp = ''.join([chr(ord(x) ^ ord(y)) for x, y in zip(a, b)])
    h.check(h.eq(w.get_bytes(), exp), 'xor is bytewise')
    h.check(h.eq((w ^ v).get_bytes(), a), 'xor twice restores')
    h.check(h.eq(u.get_bytes(), a), 'operands unchanged')


def uuid_eq():
    a, b = h.bytes('a', 16), h.bytes('b', 16)
    u, v = UUID(bytes=a, offset=0), UUID(bytes=b, offset=0)
    same = a == b
    h.check((u == v) == same, 'equal exactly when the bytes are')
    h.check((u != v) == h.not_(same), 'unequal exactly when the bytes differ')
    if u == v:
        h.check(h.same_hash(u, v), 'equal identifiers hash alike')
        h.check(len({u: 1, v: 2}) == 1, 'equal identifiers are one dictionary key')
    h.check(h.not_(u == 'x'), 'never equal to something else')


def vec_dist(kind):
    """the distance of two points"""
    if kind == 'any':
        a = Vector3(X=h.f32('ax'), Y=h.f32('ay'), Z=h.f32('az'))
        b = Vector3(X=h.f32('bx'), Y=h.f32('by'), Z=h.f32('bz'))
        d = Vector3.dist_squared(a, b)
        x, y, z = a.X - b.X, a.Y - b.Y, a.Z - b.Z
        e = x * x + y * y + z * z
        h.check(h.or_(d == e, h.is_nan(e)), 'the squared distance is the sum of the squares')
        return
    p = [h.choice(n, [-2, 0.5, 3]) for n in ('ax', 'ay', 'az')]
    q = [h.choice(n, [0, 4]) for n in ('bx', 'by', 'bz')]
    want = sum([(i - j) ** 2 for i, j in zip(p, q)])
    a, b = Vector3(X=p[0], Y=p[1], Z=p[2]), Vector3(X=q[0], Y=q[1], Z=q[2])
    h.check(Vector3.dist_squared(a, b) == want and Vector3.dist_squared(b, a) == want, 'the squared distance is the sum of the squares')
    h.check(a() == tuple(p) and b() == tuple(q), 'measuring changes nothing')


def decimal(name, whole, frac):
    """(text, value)"""
    t = h.bytes(name, whole + frac)
    v = 0
    for c in t:
        h.assume(h.and_(c >= '0', c <= '9'))
        v = v * 10 + (ord(c) - 48)
    s = t[:whole]
    if frac:
        s = s + '.' + t[whole:]
    v = float(v)
    if frac:
        v = v / (10.0 ** frac)
    return s, v


def vec_parse(form, whole, frac):
    """text forms of a vector"""
    vals, text = [], ''
    sep = h.choice('separator', [',', ', ', ' ,\t'])
    which = h.choice('which', [0, 1, 2]) if frac else None
    for k in range(3):
        if frac and k != which:
            s, v = ['7', '0.25', '12'][k], [7.0, 0.25, 12.0][k]
            vals.append(v)
            text = text + (sep if k else '') + s
            continue
        s, v = decimal('xyz'[k], whole, frac)
        if h.choice('sign', ['', '-']) == '-':
            s, v = '-' + s, -v
        vals.append(v)
        text = text + (sep if k else '') + s
    r = Vector3.parse(form[0] + text + form[1])
    h.check(h.eq(r(), tuple(vals)), 'the text form of a vector gives its values')


def vec_unparsed(text):
    try:
        Vector3.parse(text)
        ok = True
    except ValueError:
        ok = False
    h.check(not ok, 'text that is not three numbers is refused')


def vec_shown():
    """a vector parses back from what it shows"""
    x = h.choice('x', [0.0, 1.5, -2.25, 1e-7, 123456.78, 1e20])
    v = Vector3(X=x, Y=-x, Z=3)
    h.check(Vector3.parse(str(v))() == v(), 'a vector can be read back from its display')


def uuid_random():
    u = UUID()
    h.check(h.eq(u.get_bytes(), '\0' * 16), 'default is nil')
    u.random()
    b = u.get_bytes()
    h.check(len(b) == 16, 'random id has 16 bytes')
    nonnil = not h.eq(b, '\0' * 16)
    if nonnil:
        u.random()
        h.check(h.eq(u.get_bytes(), b), 'a set id is not overwritten')


def cases(tier):
    offs = (0, 1, 5) if tier == 'quick' else (0, 1, 2, 3, 4, 5)
    out = []
    for o in offs:
        out.append(('vector bytes at %d' % o, vec_bytes, (o,)))
        out.append(('quaternion bytes at %d' % o, quat_bytes, (o,)))
        out.append(('uuid bytes at %d' % o, uuid_bytes, (o,)))
    out += [('far offset %d' % o, far, (o,)) for o in ((300,) if tier == 'quick' else (255, 256, 300, 32768, 65536))]
    out += [('vector values', vec_values), ('vector from integers', vec_ints), ('quaternion values', quat_values),
            ('quaternion 12 bytes', quat_short, (0,)), ('quaternion 12 bytes, outside', quat_outside), ('quaternion 12 bytes, inside', quat_inside), ('uuid xor', uuid_xor), ('uuid equality', uuid_eq),
            ('uuid random', uuid_random), ('distance', vec_dist, ('some',)), ('distance, any', vec_dist, ('any',)), ('shown', vec_shown)]
    for f in (('<', '>'), ('', ''), (' <', '> ')):
        for w, r in ((1, 0), (2, 1)) if tier == 'quick' else ((1, 0), (2, 1), (3, 3), (5, 0)):
            out.append(('parse %s%d.%d%s' % (f[0], w, r, f[1]), vec_parse, (f, w, r)))
    for t in ('', '<>', '1,2', '<1,2,3,4>', '1 2 3', '<a,b,c>', '1,2,', '<1,,3>', '1;2;3'):
        out.append(('unparsed ' + t, vec_unparsed, (t,)))
    return out
