"""Reference model of the message template and of the UDP wire format, written from the format's description
(message_template.msg 2.0), independent of the code under test. Shared by several harnesses."""
import struct
import h
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion
from pyogp.lib.base.message.data import msg_tmpl, msg_details
from pyogp.lib.base.message.message import Message, Block

SIZES = {'U8': 1, 'U16': 2, 'U32': 4, 'U64': 8, 'S8': 1, 'S16': 2, 'S32': 4, 'S64': 8, 'F32': 4, 'F64': 8, 'LLVector3': 12,
         'LLVector3d': 24, 'LLVector4': 16, 'LLQuaternion': 12, 'LLUUID': 16, 'BOOL': 1, 'IPADDR': 4, 'IPPORT': 2}


def tokens(text):
    out = []
    for line in text.split('\n'):
        k = line.find('//')
        if k >= 0:
            line = line[:k]
        line = line.replace('{', ' { ').replace('}', ' } ').replace('\r', ' ')
        out.extend(line.split())
    return out


def parse_template(text):
    """[(name, frequency, number, [(block, kind, repeat, [(field, type, size)])])] in file order"""
    t = tokens(text)
    i = 0
    out = []
    while i < len(t) and t[i] != '{':
        i += 1
    while i < len(t):
        # t[i] == '{': a message
        i += 1
        head = []
        while t[i] not in ('{', '}'):
            head.append(t[i])
            i += 1
        blocks = []
        while t[i] == '{':
            i += 1
            bh = []
            while t[i] not in ('{', '}'):
                bh.append(t[i])
                i += 1
            fields = []
            while t[i] == '{':
                i += 1
                f = []
                while t[i] != '}':
                    f.append(t[i])
                    i += 1
                i += 1
                n = 0
                if f[1] in ('Fixed', 'Variable'):
                    n = int(f[2])
                else:
                    n = SIZES[f[1]]
                fields.append((f[0], f[1], n))
            i += 1
            rep = 1
            if bh[1] == 'Multiple':
                rep = int(bh[2])
            blocks.append((bh[0], bh[1], rep, fields))
        i += 1
        num = head[2]
        if num.startswith('0x'):
            num = int(num[2:], 16)
        else:
            num = int(num)
        if head[1] == 'Fixed':
            num = num & 0xff
        out.append((head[0], head[1], num, blocks))
    return out


def id_bytes(freq, num):
    if freq == 'High':
        return chr(num)
    if freq == 'Medium':
        return '\xff' + chr(num)
    if freq == 'Low':
        return '\xff\xff' + chr(num >> 8) + chr(num & 255)
    return '\xff\xff\xff' + chr(num)


def le(v, n):
    s = ''
    for k in range(n):
        s += chr((v >> (8 * k)) & 255)
    return s


def be(v, n):
    s = ''
    for k in range(n - 1, -1, -1):
        s += chr((v >> (8 * k)) & 255)
    return s


RANGES = {'U8': (0, 255), 'U16': (0, 65535), 'U32': (0, 0xffffffff), 'U64': (0, 0xffffffffffffffff),
          'S8': (-128, 127), 'S16': (-0x8000, 0x7fff), 'S32': (-0x80000000, 0x7fffffff),
          'S64': (-0x8000000000000000, 0x7fffffffffffffff), 'BOOL': (0, 1), 'IPPORT': (0, 65535)}


def floats(name, n, code):
    size = struct.calcsize('<' + code)
    raw = h.bytes(name, n * size)
    vals = []
    for k in range(n):
        v = struct.unpack('<' + code, raw[k * size:(k + 1) * size])[0]
        h.assume(h.not_(h.is_nan(v)))
        vals.append(v)
    return raw, vals


# concrete quaternions: what the 12-byte form does to a rotation is property C29
QUATS = [(0.5, -0.5, 0.5, 0.5), (0.25, 0.5, -0.25, 0.5), (0.0, 0.0, 0.0, 1.0), (0.0, -1.0, 0.0, 0.0)]


class Field(object):
    """one generated field: value to send, wire bytes, and a test of the decoded value"""
    def __init__(self, value, wire, same):
        self.value, self.wire, self.same = value, wire, same


def eq_to(v):
    return lambda d: h.eq(d, v)


def gen(tp, size, name, length, fname, salt=0):
    if tp in RANGES:
        lo, hi = RANGES[tp]
        v = h.int(name, lo, hi)
        n = SIZES[tp]
        if tp == 'IPPORT':
            w = be(v, 2)
        else:
            w = le(v & ((1 << (8 * n)) - 1), n)
        return Field(v, w, eq_to(v))
    if tp == 'F32':
        raw, vs = floats(name, 1, 'f')
        return Field(vs[0], raw, eq_to(vs[0]))
    if tp == 'F64':
        raw, vs = floats(name, 1, 'd')
        return Field(vs[0], raw, eq_to(vs[0]))
    if tp == 'LLVector3':
        raw, vs = floats(name, 3, 'f')
        return Field(Vector3(X=vs[0], Y=vs[1], Z=vs[2]), raw,
                     lambda d: h.eq([d.X, d.Y, d.Z], vs))
    if tp == 'LLVector3d':
        raw, vs = floats(name, 3, 'd')
        return Field(tuple(vs), raw, lambda d: h.eq(list(d), vs))
    if tp == 'LLVector4':
        raw, vs = floats(name, 4, 'f')
        return Field(tuple(vs), raw, lambda d: h.eq(list(d), vs))
    if tp == 'LLQuaternion':
        x, y, z, w = QUATS[salt % len(QUATS)]
        return Field(Quaternion(X=x, Y=y, Z=z, W=w), struct.pack('<fff', x, y, z), lambda d: h.eq([d.X, d.Y, d.Z], [x, y, z]))
    if tp == 'LLUUID':
        raw = h.bytes(name, 16)
        return Field(UUID(bytes=raw), raw, lambda d: h.eq(d.get_bytes(), raw))
    if tp == 'IPADDR':
        raw = h.bytes(name, 4)
        return Field(raw, raw, eq_to(raw))
    if tp == 'Fixed':
        raw = h.bytes(name, size)
        return Field(raw, raw, eq_to(raw))
    # Variable: binary when it is called Data, else text that travels with a terminator
    raw = h.bytes(name, length)
    if fname == 'Data':
        body = raw
    else:
        if length:
            h.assume(raw[-1] != '\0')
        body = raw + '\0'
    return Field(raw, le(len(body), size) + body, eq_to(raw))


class Gen(object):
    """a symbolic message for a template entry"""
    def __init__(self, entry, count, length):
        self.name, self.freq, self.num, blocks = entry
        self.wire = ''
        self.fields = []
        # where in the wire bytes each field starts
        self.starts = []
        self.msg = Message(self.name)
        salt = 0
        for bname, kind, rep, fields in blocks:
            if kind == 'Variable':
                rep = count
                self.wire += chr(rep)
            for r in range(rep):
                kw = {}
                for fname, tp, size in fields:
                    f = gen(tp, size, '%s.%d.%s' % (bname, r, fname), length, fname, salt)
                    salt += 1
                    kw[fname] = f.value
                    self.starts.append(len(self.wire))
                    self.wire += f.wire
                    self.fields.append((bname, r, fname, f))
                self.msg.add_block(Block(bname, **kw))
        if self.name == 'RegionHandshakeReply':
            # documented deviation: four zero bytes follow the flags
            self.wire += '\0\0\0\0'

    def same(self, m):
        cs = []
        for bname, r, fname, f in self.fields:
            cs.append(f.same(m[bname][r][fname]))
        return h.and_(*cs)

    def shape(self, m, blocks, count):
        for bname, kind, rep, fields in blocks:
            if kind == 'Variable':
                rep = count
            if rep and len(m[bname]) != rep:
                return False
        return True


def template_text():
    msg_tmpl.seek(0)
    return msg_tmpl.read()


ENTRIES = parse_template(template_text())


FLAVORS = {}


def may_travel(entry):
    """whether the embedded message.xml lets a message travel over UDP"""
    if not FLAVORS:
        from llbase import llsd
        ms = llsd.parse(msg_details)['messages']
        for n in ms:
            FLAVORS[n] = ms[n].get('flavor')
    return FLAVORS.get(entry[0], 'template') == 'template'


def by_name(n):
    for e in ENTRIES:
        if e[0] == n:
            return e


def custom():
    """a template with every shape of message, also those the embedded one does not use"""
    out = ['version 2.0']

    def msg(name, freq, num, blocks):
        out.append('{\n\t%s %s %s NotTrusted %s' % (name, freq, num, 'Zerocoded' if len(out) % 2 else 'Unencoded'))
        for bname, kind, fields in blocks:
            out.append('\t{\n\t\t%s %s' % (bname, kind))
            for f in fields:
                out.append('\t\t{ %s }' % f)
            out.append('\t}')
        out.append('}')
    k = 0
    for t in sorted(SIZES):
        k += 1
        msg('X' + t, ('High', 'Medium', 'Low')[k % 3], k + 100, [('A', 'Single', ['F ' + t])])
    for n in (1, 2, 4):
        for f in ('Data', 'Text'):
            k += 1
            msg('X%s%d' % (f, n), 'Low', 300 + k, [('A', 'Single', ['%s Variable %d' % (f, n), 'After U16'])])
    for n in (1, 2, 17):
        k += 1
        msg('XFixed%d' % n, 'Medium', k + 150, [('A', 'Single', ['F Fixed %d' % n, 'Data Variable 1'])])
    msg('XOrder', 'Low', 65279, [('C', 'Single', ['Z U8', 'A U8', 'M U8']), ('A', 'Variable', ['Z S16', 'A U8']), ('B', 'Multiple 2', ['Z U8', 'Data Variable 2']),
                                 ('D', 'Variable', ['Name Variable 1'])])
    msg('XVars', 'Low', 255, [('A', 'Variable', ['F U8']), ('B', 'Variable', ['F U8', 'G BOOL'])])
    msg('XBoth', 'Low', 256, [('Data', 'Single', ['Data Variable 1', 'data Variable 1', 'Data2 Variable 1'])])
    msg('XMulti', 'High', 254, [('A', 'Multiple 1', ['F U8']), ('B', 'Multiple 11', ['F U8'])])
    msg('XFixedNumber', 'Fixed', '0xFFFFFF00', [('A', 'Single', ['F U8'])])
    msg('XMedium', 'Medium', 254, [('A', 'Single', ['F U8'])])
    msg('XLow', 'Low', 1, [('A', 'Single', ['F U8'])])
    msg('XHigh', 'High', 0, [('A', 'Single', ['F U8'])])
    return '\n'.join(out) + '\n'


CUSTOM_TEXT = custom()
CUSTOM = parse_template(CUSTOM_TEXT)


def encode(s):
    """reference zero coder: each run of zeros becomes a zero and its length, at most 255 at a time"""
    out = ''
    run = 0
    for c in s:
        if c == '\0':
            run += 1
            if run == 255:
                out += '\0\xff'
                run = 0
        else:
            if run:
                out += '\0' + chr(run)
                run = 0
            out += c
    if run:
        out += '\0' + chr(run)
    return out


class AllHandled(object):
    """a message handler that watches every message"""
    def __init__(self):
        self.got = []

    def is_message_handled(self, name):
        return True

    def handle(self, m):
        self.got.append(m)


def body(entry, count, length, src):
    """the wire form of a message whose field bytes are taken from src(n)"""
    out = ''
    for bname, kind, rep, fields in entry[3]:
        if kind == 'Variable':
            rep = count
            out += chr(rep)
        for r in range(rep):
            for fname, tp, size in fields:
                if tp == 'Variable':
                    out += le(length, size) + src(length)
                else:
                    out += src(size)
    return out


def same_message(a, b):
    """two decoded messages are the same"""
    if a is None or b is None:
        return a is b
    if a.name != b.name or len(a.blocks) != len(b.blocks):
        return False
    cs = [a.packet_id == b.packet_id, h.eq(a.acks, b.acks), a.reliable == b.reliable]
    for n in a.blocks:
        x, y = a[n], b[n]
        if len(x) != len(y):
            return False
        for p, q in zip(x, y):
            for v in p.vars:
                cs.append(h.eq(plain(p[v]), plain(q[v])))
    return h.and_(*cs)


def plain(v):
    if isinstance(v, UUID):
        return v.get_bytes()
    if isinstance(v, (Vector3, Quaternion)):
        return list(v.data())
    if isinstance(v, tuple):
        return list(v)
    return v
