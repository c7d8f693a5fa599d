"""Models of the library modules the code under test imports. Concrete behaviour follows Jython 2.7
(checked against it by selftest.py and by every trace replay); symbolic behaviour generalises it."""
import base64
import binascii as _binascii
import copy as _copy
import functools as _functools
import math as _math
import operator as _operator
import os as _os
import re as _re
import struct as _struct
import sys as _sys
import types as _types
import xml.etree.ElementTree as ET

import z3

import rt
import sym
from rt import U, SymUni, ALLSYM
from sym import (SymInt, SymBool, SymBytes, SymFloat, SymText, Unsupported, mk_bytes, mk_int, mk_bool, tobytes, and_, or_, not_,
                 zb)


def mod(_n, **attrs):
    m = _types.ModuleType(_n)
    m.__dict__.update(attrs)
    m.__dict__['_shim_'] = True

    def missing(n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        return Poison(_n + '.' + n)
    m.__dict__['__getattr__'] = missing
    return m


# ---------------------------------------------------------------- struct

class StructError(Exception):
    pass


StructError.__name__ = 'error'

SIZES = {'x': 1, 'c': 1, 'b': 1, 'B': 1, 's': 1, 'p': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'f': 4,
         'q': 8, 'Q': 8, 'd': 8}


def parse_fmt(f):
    if type(f) in ALLSYM:
        raise Unsupported('symbolic struct format')
    if not isinstance(f, str):
        raise TypeError('Struct() argument 1 must be string')
    f = str(f)
    order, native = '>', True
    if f[:1] and f[0] in '<>!=@':
        order = '<' if f[0] == '<' else '>'
        native = f[0] == '@'
        f = f[1:]
    out, num, pos = [], None, 0
    for c in f:
        if c in ' \t\n\r\x0b\x0c':
            continue
        if c.isdigit():
            num = (num or 0) * 10 + int(c)
            continue
        if c not in SIZES:
            raise StructError('bad char in struct format')
        n = 1 if num is None else num
        if native and c not in 'xcbBsp':
            a = SIZES[c]
            pad = -pos % a
            if pad:
                out.append(('x', pad))
                pos += pad
        pos += n * SIZES[c]
        if c in 'xsp':
            out.append((c, n))
        else:
            out += [(c, 1)] * n
        num = None
    if num is not None:
        raise StructError('bad char in struct format')
    return order, out, pos


def intbytes(e, n, order):
    """bytes of an 8n-bit vector"""
    bs = [sym.norm_byte(z3.Extract(8 * k + 7, 8 * k, e)) for k in range(n)]
    return bs if order == '<' else bs[::-1]


INT_RANGE = {'b': (-2 ** 31, 2 ** 31 - 1), 'B': (-2 ** 31, 2 ** 31 - 1), 'h': (-2 ** 31, 2 ** 31 - 1),
             'H': (-2 ** 31, 2 ** 31 - 1), 'i': (-2 ** 31, 2 ** 31 - 1), 'l': (-2 ** 31, 2 ** 31 - 1),
             'I': (-2 ** 63, 2 ** 63 - 1), 'L': (-2 ** 63, 2 ** 63 - 1), 'q': (-2 ** 63, 2 ** 63 - 1),
             'Q': (0, 2 ** 64 - 1)}


def pack_(f, *vals):
    order, items, _ = parse_fmt(f)
    out = []
    i = 0
    for c, n in items:
        if c == 'x':
            out += [0] * n
            continue
        if i >= len(vals):
            raise StructError('insufficient arguments to pack')
        v = vals[i]
        i += 1
        if c in 'sp':
            if type(v) is SymUni or type(v) is SymText:
                raise Unsupported('struct s of symbolic unicode')
            t = tobytes(v)
            if t is None:
                raise StructError("argument for '%s' must be a string" % c)
            if c == 'p':
                raise Unsupported('struct p')
            t = t[:n]
            out += list(t) + [0] * (n - len(t))
            continue
        if c == 'c':
            t = tobytes(v)
            if t is None or len(t) != 1:
                raise StructError('char format require string of length 1')
            out += t
            continue
        size = SIZES[c]
        if c in 'fd':
            if isinstance(v, (str, SymBytes, SymUni, SymText)) or v is None or not (
                    isinstance(v, (int, float)) or type(v) in (SymInt, SymFloat, SymBool) or hasattr(type(v), '__float__')):
                raise TypeError('a float is required')
            if isinstance(v, (int, float)):
                v = float(v)
                if c == 'd':
                    b = _struct.pack('>d', v) if v == v else b'\x7f\xf8' + b'\0' * 6
                else:
                    try:
                        b = _struct.pack('>f', v) if v == v else b'\x7f\xc0\0\0'
                    except OverflowError:
                        b = _struct.pack('>f', _math.copysign(float('inf'), v))
                out += list(b) if order == '>' else list(b)[::-1]
            else:
                e = sym.float_bits32(v) if c == 'f' else sym.float_bits64(v)
                out += intbytes(e, size, order)
            continue
        # integer codes
        if type(v) is SymFloat:
            v = rt.float_to_int(v)
        elif isinstance(v, float):
            v = int(v)
        elif type(v) is SymBool:
            v = mk_int(*sym.lift(v))
        elif not isinstance(v, int) and type(v) is not SymInt:
            raise StructError('required argument is not an integer')
        lo, hi = INT_RANGE[c]
        if not sym.int_in(v, lo, hi):
            raise StructError('long int too long to convert')
        out += intbytes(sym.low_bits(v, 8 * size), size, order)
    if i < len(vals):
        raise StructError('too many arguments for pack format')
    return mk_bytes(out)


def unpack_(f, data):
    order, items, size = parse_fmt(f)
    if type(data) is rt.bytearray_:
        data = data.tostr()
    t = tobytes(data)
    if t is None:
        raise TypeError('unpack requires a string argument')
    if len(t) != size:
        raise StructError('unpack str size does not match format')
    return _unpack(order, items, t)


def _unpack(order, items, t):
    out = []
    p = 0
    for c, n in items:
        if c == 'x':
            p += n
            continue
        if c == 's':
            out.append(mk_bytes(t[p:p + n]))
            p += n
            continue
        if c == 'p':
            raise Unsupported('struct p')
        k = SIZES[c]
        b = t[p:p + k]
        p += k
        if c == 'c':
            out.append(mk_bytes(b))
            continue
        if order == '<':
            b = b[::-1]
        conc = all(type(x) is int for x in b)
        if c in 'fd':
            if conc:
                out.append(_struct.unpack('>' + c, bytes(b))[0])
            else:
                e = z3.simplify(sym.bconcat(b))
                out.append(SymFloat(None, ('f32' if c == 'f' else 'f64', e)))
            continue
        signed = c in 'bhilq'
        if conc:
            out.append(int.from_bytes(bytes(b), 'big', signed=signed))
        elif signed:
            w = 8 * k
            out.append(mk_int(z3.simplify(sym.bconcat(b)), -(1 << (w - 1)), (1 << (w - 1)) - 1))
        else:
            out.append(mk_int(z3.simplify(z3.ZeroExt(1, sym.bconcat(b))), 0, (1 << 8 * k) - 1))
    return tuple(out)


def unpack_from_(f, data, offset=0):
    order, items, size = parse_fmt(f)
    t = tobytes(data)
    if type(offset) is SymInt:
        offset = offset.__index__()
    if offset < 0:
        offset += len(t)
    if offset < 0 or len(t) - offset < size:
        raise StructError('unpack_from str size does not match format')
    return _unpack(order, items, t[offset:offset + size])


class Struct(object):
    def __init__(self, f):
        self.format = f
        self.size = parse_fmt(f)[2]

    def pack(self, *v):
        return pack_(self.format, *v)

    def unpack(self, d):
        return unpack_(self.format, d)

    def unpack_from(self, d, o=0):
        return unpack_from_(self.format, d, o)


struct = mod('struct', pack=pack_, unpack=unpack_, unpack_from=unpack_from_, error=StructError, Struct=Struct,
             calcsize=lambda f: parse_fmt(f)[2])


# ---------------------------------------------------------------- binascii

def hexlify(s):
    t = tobytes(s)
    if t is None:
        raise TypeError('expected a string')
    out = []
    for b in t:
        if type(b) is int:
            out += list(('%02x' % b).encode())
        else:
            out += [sym.norm_byte(rt.hexdigit(z3.Extract(7, 4, b), False)), sym.norm_byte(rt.hexdigit(z3.Extract(3, 0, b), False))]
    return mk_bytes(out)


def unhexlify(s):
    t = tobytes(s)
    if t is None:
        raise TypeError('expected a string')
    if len(t) % 2:
        raise TypeError('Odd-length string')
    oks, nibs = [], []
    for x in t:
        oks.append(or_(rt.byte_between(x, 48, 57), rt.byte_between(x, 97, 102), rt.byte_between(x, 65, 70)))
    if not and_(*oks):
        raise TypeError('Non-hexadecimal digit found')
    for x in t:
        nibs.append(nibble(x))
    out = []
    for i in range(0, len(nibs), 2):
        out.append(sym.norm_byte(z3.Concat(nibs[i], nibs[i + 1])))
    return mk_bytes(out)


def nibble(x):
    if type(x) is int:
        return z3.BitVecVal(int(chr(x), 16), 4)
    d = z3.If(z3.ULE(x, 57), x - 48, z3.If(z3.UGE(x, 97), x - 87, x - 55))
    return z3.simplify(z3.Extract(3, 0, d))


B64 = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'


def b64char(e6):
    v = z3.ZeroExt(2, e6)
    return sym.norm_byte(z3.If(z3.ULT(v, 26), v + 65, z3.If(z3.ULT(v, 52), v + 71, z3.If(z3.ULT(v, 62), v - 4,
                         z3.If(v == 62, z3.BitVecVal(43, 8), z3.BitVecVal(47, 8))))))


def b2a_base64(s):
    t = tobytes(s)
    if t is None:
        raise TypeError('expected a string')
    if all(type(b) is int for b in t):
        return _binascii.b2a_base64(bytes(t)).decode('latin-1')
    out = []
    for i in range(0, len(t), 3):
        ch = t[i:i + 3]
        pad = 3 - len(ch)
        e = sym.bconcat(ch + (0,) * pad)
        cs = [b64char(z3.Extract(23 - 6 * k, 18 - 6 * k, e)) for k in range(4)]
        if pad:
            cs = cs[:4 - pad] + [61] * pad
        out += cs
    return mk_bytes(out + [10])


def b2a_uu(s):
    t = tobytes(s)
    if t is None:
        raise TypeError('expected a string')
    if len(t) > 45:
        raise Unsupported('b2a_uu of more than 45 bytes')
    out = [32 + len(t) if t else 32]
    for i in range(0, len(t), 3):
        ch = t[i:i + 3]
        e = sym.bconcat(ch + (0,) * (3 - len(ch)))
        out += [sym.norm_byte(z3.ZeroExt(2, z3.Extract(23 - 6 * k, 18 - 6 * k, e)) + 32) for k in range(4)]
    return mk_bytes(out + [10])


def a2b_base64(s):
    if not isinstance(s, str):
        raise Unsupported('a2b_base64 of symbolic str')
    return _binascii.a2b_base64(s.encode('latin-1')).decode('latin-1')


def crc32(s, *a):
    if not isinstance(s, str):
        raise Unsupported('crc32 of symbolic str')
    return _binascii.crc32(s.encode('latin-1'), *a)


class BinasciiError(Exception):
    pass


def b64encode(s, altchars=None):
    if altchars is not None:
        raise Unsupported('base64 alternative characters')
    return b2a_base64(s)[:-1]


def encodestring(s):
    out = ''
    for i in range(0, len(s), 57):
        out = out + b2a_base64(s[i:i + 57])
    return out


base64_ = mod('base64', b64encode=b64encode, standard_b64encode=b64encode, encodestring=encodestring,
              b16encode=lambda s: rt.mcall(hexlify(s), 'upper'))


def _codec(kind):
    def f(o, enc='ascii', errors='strict'):
        if errors != 'strict':
            raise Unsupported('codec error handler')
        if enc.lower().replace('_', '-') not in ('utf-8', 'utf8', 'ascii', 'latin-1'):
            raise Unsupported('codec ' + enc)
        return rt.mcall(o, kind, enc)
    return f


codecs = mod('codecs', encode=_codec('encode'), decode=_codec('decode'))


binascii = mod('binascii', hexlify=hexlify, unhexlify=unhexlify, b2a_hex=hexlify, a2b_hex=unhexlify, b2a_base64=b2a_base64,
               b2a_uu=b2a_uu, a2b_base64=a2b_base64, Error=BinasciiError, crc32=crc32)


# ---------------------------------------------------------------- uuid

class UUID_(object):
    """uuid.UUID: the 16 bytes are the state"""
    __slots__ = ('_b',)
    _symcmp_ = True

    def __init__(self, hex=None, bytes=None, bytes_le=None, fields=None, int=None, version=None):
        if [hex, bytes, bytes_le, fields, int].count(None) != 4:
            raise TypeError('need just one of hex, bytes, bytes_le, fields, or int')
        if hex is not None:
            if type(hex) in (SymUni, SymText):
                raise Unsupported('uuid from symbolic text')
            h = rt.mcall(rt.mcall(hex, 'replace', 'urn:', ''), 'replace', 'uuid:', '') if type(hex) is str or type(hex) is U else hex
            if isinstance(h, str):
                h = h.strip('{}').replace('-', '')
            elif type(h) is SymBytes:
                h = mk_bytes([b for b in h.b if not (type(b) is builtin_int and b == 45)])
                if any(type(b) is not builtin_int for b in h.b):
                    bad = or_(*[rt.byte_in(b, (45, 123, 125, 117)) for b in h.b])
                    if bad:
                        raise Unsupported('uuid punctuation in symbolic digits')
            else:
                raise AttributeError("'%s' object has no attribute 'replace'" % rt.tname(hex))
            if len(h) != 32:
                raise ValueError('badly formed hexadecimal UUID string')
            v = rt.int_(h, 16)
            self._b = tuple(sym.norm_byte(x) for x in intbytes(sym.low_bits(v, 128), 16, '>'))
        elif bytes is not None:
            t = tobytes(bytes)
            if t is None:
                raise TypeError("object of type '%s' has no len()" % rt.tname(bytes))
            if len(t) != 16:
                raise ValueError('bytes is not a 16-char string')
            self._b = t
        elif int is not None:
            if not sym.int_in(int, 0, (1 << 128) - 1):
                raise ValueError('int is out of range (need a 128-bit value)')
            self._b = tuple(intbytes(sym.low_bits(int, 128), 16, '>'))
        else:
            raise Unsupported('UUID constructor form')

    bytes = property(lambda s: mk_bytes(s._b))

    @property
    def int(self):
        if all(type(x) is builtin_int for x in self._b):
            return builtin_int.from_bytes(builtin_bytes(self._b), 'big')
        return mk_int(z3.simplify(z3.ZeroExt(1, sym.bconcat(self._b))), 0, (1 << 128) - 1)

    hex = property(lambda s: hexlify(s.bytes))

    def get_bytes(self):
        return self.bytes

    def get_hex(self):
        return self.hex

    def get_urn(self):
        return self.urn

    def __getattr__(self, n):
        if n in ('fields time_low time_mid time_hi_version clock_seq_hi_variant clock_seq_low node clock_seq time variant bytes_le '
                 'get_fields get_node get_time').split():
            raise Unsupported('UUID.' + n)
        raise AttributeError("'UUID' object has no attribute '%s'" % n)

    def text(self):
        h = tobytes(self.hex)
        return mk_bytes(h[:8] + (45,) + h[8:12] + (45,) + h[12:16] + (45,) + h[16:20] + (45,) + h[20:])

    def __str__(self):
        raise Unsupported('native str of UUID')

    @property
    def urn(self):
        return 'urn:uuid:' + self.text()

    @property
    def version(self):
        b = self._b[6]
        return b >> 4 if type(b) is builtin_int else mk_int(z3.ZeroExt(1, z3.LShR(b, 4)), 0, 15)

    def __eq__(self, o):
        if type(o) is UUID_:
            return sym.bytes_eq(self._b, o._b)
        return NotImplemented

    def __ne__(self, o):
        if type(o) is UUID_:
            return not_(sym.bytes_eq(self._b, o._b))
        return NotImplemented

    def __lt__(self, o):
        return self.bytes < o.bytes

    def __gt__(self, o):
        return self.bytes > o.bytes

    def __hash__(self):
        if all(type(x) is builtin_int for x in self._b):
            return hash(self._b)
        raise Unsupported('native hash of symbolic UUID')

    def __setattr__(self, n, v):
        if n != '_b':
            raise TypeError('UUID objects are immutable')
        object.__setattr__(self, n, v)


builtin_int = int
builtin_bytes = bytes
RANDOM = [None]


def uuid4_():
    """any version-4 UUID: fresh symbolic bytes with version and variant bits fixed, not nil"""
    c = sym.CTX
    n = c.fresh_name('uuid4')
    bs = []
    for k in range(16):
        e = z3.BitVec('%s[%d]' % (n, k), 8)
        if k == 6:
            e = (e & 0x0f) | 0x40
        if k == 8:
            e = (e & 0x3f) | 0x80
        bs.append(sym.norm_byte(e))
    return UUID_(bytes=mk_bytes(bs))


uuid = mod('uuid', UUID=UUID_, uuid4=uuid4_, uuid1=uuid4_)


# ---------------------------------------------------------------- math

def _m1(name):
    f = getattr(_math, name)

    def g(x):
        if type(x) in (SymFloat, SymInt, SymBool):
            x = sym.to_float(x)
            if name == 'fabs':
                return abs(x)
            if name == 'sqrt':
                if sym.CTX.decide(z3.fpLT(x.e, sym.fpval(0.0))):
                    raise ValueError('math domain error')
                return sym.mk_float(z3.fpSqrt(sym.RNE, x.e))
            if name in ('floor', 'ceil', 'trunc'):
                return sym.mk_float(z3.fpRoundToIntegral({'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ()}[name], x.e))
            raise Unsupported('math.%s of a symbolic value' % name)
        if isinstance(x, (str, SymBytes)) or x is None:
            raise TypeError('a float is required')
        r = f(x)
        return float(r) if name in ('floor', 'ceil') else r
    return g


def _isnan(x):
    if type(x) is SymFloat:
        return sym.mk_bool(z3.simplify(x.is_nan()))
    if type(x) is SymInt:
        return False
    return _math.isnan(x)


def _isinf(x):
    if type(x) is SymFloat:
        return sym.mk_bool(z3.simplify(z3.fpIsInf(x.e)))
    if type(x) is SymInt:
        return False
    return _math.isinf(x)


math = mod('math', pi=_math.pi, e=_math.e, isnan=_isnan, isinf=_isinf,
           **{n: _m1(n) for n in 'fabs sqrt floor ceil trunc sin cos tan exp log log10 asin acos atan'.split()})
math.__dict__['pow'] = lambda a, b: (sym.to_float(a) * 1.0 if b == 1 else (_ for _ in ()).throw(Unsupported('math.pow'))) \
    if type(a) in ALLSYM else _math.pow(a, b)
math.__dict__['copysign'] = _math.copysign
math.__dict__['atan2'] = _math.atan2
math.__dict__['fmod'] = _math.fmod
math.__dict__['hypot'] = _math.hypot


# ---------------------------------------------------------------- re

class SymMatch(object):
    def __init__(self, groups, names, s, end):
        self.g, self.names, self.s, self.e = groups, names, s, end

    def group(self, *ns):
        if not ns:
            ns = (0,)
        r = [self._get(n) for n in ns]
        return r[0] if len(r) == 1 else tuple(r)

    def _get(self, n):
        if isinstance(n, str):
            n = self.names[n]
        if n >= len(self.g):
            raise IndexError('no such group')
        se = self.g[n]
        return None if se is None else self.s[se[0]:se[1]]

    def groups(self, default=None):
        return tuple(default if self.g[i] is None else self._get(i) for i in range(1, len(self.g)))

    def groupdict(self, default=None):
        return {k: (default if self.g[i] is None else self._get(i)) for k, i in self.names.items()}

    @property
    def lastindex(self):
        b = [(self.g[i][1], -i) for i in range(1, len(self.g)) if self.g[i] is not None]
        return -max(b)[1] if b else None

    @property
    def string(self):
        return self.s

    def span(self, n=0):
        if isinstance(n, str):
            n = self.names[n]
        return self.g[n] if self.g[n] is not None else (-1, -1)

    def start(self, n=0):
        return self.span(n)[0]

    def end(self, n=0):
        return self.span(n)[1]


def _fixgroups(m):
    return m


import re._parser as sre_parse
import re._constants as C

WORD = [(48, 57), (65, 90), (95, 95), (97, 122)]


def _cat(b, cat):
    n = str(cat)
    if n.endswith('NOT_SPACE'):
        return not_(_cat(b, 'CATEGORY_SPACE'))
    if n.endswith('NOT_WORD'):
        return not_(_cat(b, 'CATEGORY_WORD'))
    if n.endswith('NOT_DIGIT'):
        return not_(_cat(b, 'CATEGORY_DIGIT'))
    if n.endswith('SPACE'):
        return rt.byte_in(b, rt.WS)
    if n.endswith('WORD'):
        return or_(*[rt.byte_between(b, lo, hi) for lo, hi in WORD])
    if n.endswith('DIGIT'):
        return rt.byte_between(b, 48, 57)
    raise Unsupported('regex category ' + n)


def _cls(b, items):
    neg = False
    out = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.append(rt.byte_in(b, (av,)))
        elif op is C.RANGE:
            out.append(rt.byte_between(b, av[0], av[1]))
        elif op is C.CATEGORY:
            out.append(_cat(b, av))
        else:
            raise Unsupported('regex class %s' % op)
    r = or_(*out)
    return not_(r) if neg else r


class Matcher(object):
    """backtracking matcher over (partly) symbolic bytes; character tests fork only when undetermined"""
    def __init__(self, pattern, flags):
        self.p = sre_parse.parse(pattern, flags | _re.ASCII)
        self.dotall = bool(flags & _re.DOTALL)
        self.multi = bool(flags & _re.MULTILINE)
        if flags & _re.IGNORECASE:
            raise Unsupported('case-insensitive regex on symbolic text')
        self.steps = 0

    def run(self, b, pos):
        n = self.p.state.groups
        g = [None] * n
        r = self.seq(list(self.p), 0, b, pos, g, lambda i, g: (i, g))
        if r is None:
            return None
        i, g = r
        g = list(g)
        g[0] = (pos, i)
        return g

    def seq(self, items, k, b, i, g, cont):
        rt.tick()
        if k == len(items):
            return cont(i, g)
        op, av = items[k]
        nxt = lambda i2, g2: self.seq(items, k + 1, b, i2, g2, cont)
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN, C.CATEGORY):
            if i >= len(b):
                return None
            if not self.char(op, av, b[i]):
                return None
            return nxt(i + 1, g)
        if op is C.AT:
            a = str(av)
            if a in ('AT_BEGINNING', 'AT_BEGINNING_STRING'):
                ok = i == 0 or (self.multi and rt.byte_in(b[i - 1], (10,)))
            elif a == 'AT_END':
                ok = i == len(b) or (i == len(b) - 1 and rt.byte_in(b[i], (10,))) or (self.multi and rt.byte_in(b[i], (10,)))
            elif a == 'AT_END_STRING':
                ok = i == len(b)
            elif a in ('AT_BOUNDARY', 'AT_NON_BOUNDARY'):
                l = bool(_cat(b[i - 1], 'CATEGORY_WORD')) if i > 0 else False
                r = bool(_cat(b[i], 'CATEGORY_WORD')) if i < len(b) else False
                ok = (l != r) == (a == 'AT_BOUNDARY')
            else:
                raise Unsupported('regex ' + a)
            return nxt(i, g) if ok else None
        if op is C.SUBPATTERN:
            grp, add, dele, p = av
            if grp is None:
                return self.seq(list(p), 0, b, i, g, nxt)
            start = i

            def done(i2, g2):
                g3 = list(g2)
                g3[grp] = (start, i2)
                return nxt(i2, g3)
            return self.seq(list(p), 0, b, i, g, done)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            return self.rep(op is C.MAX_REPEAT, lo, hi, list(p), 0, b, i, g, nxt, -1)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.seq(list(alt), 0, b, i, g, nxt)
                if r is not None:
                    return r
            return None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d != 1:
                raise Unsupported('lookbehind')
            r = self.seq(list(p), 0, b, i, g, lambda i2, g2: (i2, g2))
            if (r is None) == (op is C.ASSERT):
                return None
            return nxt(i, r[1] if r else g)
        raise Unsupported('regex op %s' % op)

    def char(self, op, av, x):
        if op is C.LITERAL:
            return rt.byte_in(x, (av,))
        if op is C.NOT_LITERAL:
            return not_(rt.byte_in(x, (av,)))
        if op is C.ANY:
            return True if self.dotall else not_(rt.byte_in(x, (10,)))
        if op is C.IN:
            return _cls(x, av)
        return _cat(x, av)

    def rep(self, greedy, lo, hi, p, cnt, b, i, g, nxt, last):
        single = len(p) == 1 and p[0][0] in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN)
        if single:
            op, av = p[0]
            top = len(b) - i if hi is C.MAXREPEAT or hi > len(b) - i else hi
            if greedy:
                k = 0
                while k < top and self.char(op, av, b[i + k]):
                    k += 1
                while k >= lo:
                    r = nxt(i + k, g)
                    if r is not None:
                        return r
                    k -= 1
                return None
            k = 0
            while k < lo:
                if k >= top or not self.char(op, av, b[i + k]):
                    return None
                k += 1
            while True:
                r = nxt(i + k, g)
                if r is not None:
                    return r
                if k >= top or not self.char(op, av, b[i + k]):
                    return None
                k += 1
        more = lambda: (None if (hi is not C.MAXREPEAT and cnt >= hi) or i == last else
                        self.seq(p, 0, b, i, g, lambda i2, g2: self.rep(greedy, lo, hi, p, cnt + 1, b, i2, g2, nxt, i)))
        if cnt < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else nxt(i, g)
        r = nxt(i, g)
        return r if r is not None else more()


class Pattern(object):
    def __init__(self, p, flags=0):
        if type(p) in ALLSYM:
            raise Unsupported('symbolic regex')
        self.pattern = p
        self.flags = int(flags)
        try:
            self.c = _re.compile(p, self.flags | _re.ASCII)
        except _re.error as e:
            raise ReError(str(e))
        self.m = None

    def _run(self, s, kind, pos=0):
        if type(s) is SymDoc:
            s = s.skeleton()
        if isinstance(s, str):
            return getattr(self.c, kind)(s, pos)
        if type(s) is not SymBytes:
            raise TypeError('expected string or buffer')
        if self.m is None:
            self.m = Matcher(self.pattern, self.flags)
        b = s.b
        for i in ([pos] if kind != 'search' else range(pos, len(b) + 1)):
            g = self.m.run(b, i)
            if g is not None:
                return SymMatch(g, self.c.groupindex, s, None)
        return None

    def match(self, s, pos=0):
        return self._run(s, 'match', pos)

    def search(self, s, pos=0):
        return self._run(s, 'search', pos)

    def finditer(self, s):
        if isinstance(s, str):
            return self.c.finditer(s)
        out, pos = [], 0
        while pos <= len(s):
            m = self.search(s, pos)
            if m is None:
                break
            out.append(m)
            pos = m.end() if m.end() > m.start() else m.end() + 1
        return out

    def findall(self, s):
        out = []
        for m in self.finditer(s):
            gs = m.groups('')
            out.append(m.group() if not gs else gs[0] if len(gs) == 1 else gs)
        return out

    def split(self, s, maxsplit=0):
        if isinstance(s, str):
            return self.c.split(s, maxsplit)
        out, p, n = [], 0, 0
        for m in self.finditer(s):
            if m.end() == m.start() or (maxsplit and n >= maxsplit):
                continue
            out.append(s[p:m.start()])
            out += list(m.groups())
            p = m.end()
            n += 1
        out.append(s[p:])
        return out

    def sub(self, r, s, count=0):
        return self.subn(r, s, count)[0]

    def subn(self, r, s, count=0):
        if isinstance(s, str) and isinstance(r, str):
            return self.c.subn(r, s, count)
        if type(s) is SymDoc:
            raise Unsupported('re.sub on a document')
        if isinstance(r, str) and '\\' in r:
            raise Unsupported('re.sub with template on symbolic text')
        out, p, n, last = '', 0, 0, -1
        for m in self.finditer(s):
            if count and n >= count:
                break
            if m.end() == m.start() == last:
                continue
            x = rt.call(r, m) if callable(r) else r
            if x is None:
                x = ''
            if not isinstance(x, (str, SymBytes, SymText)):
                raise TypeError('expected string or buffer')
            out = out + s[p:m.start()] + x
            p = last = m.end()
            n += 1
        return out + s[p:], n


class ReError(Exception):
    pass


_PATS = {}


def re_compile(p, flags=0):
    if isinstance(p, Pattern):
        return p
    k = (p, int(flags))
    if k not in _PATS:
        _PATS[k] = Pattern(p, flags)
    return _PATS[k]


re = mod('re', compile=re_compile, error=ReError, escape=_re.escape, I=2, IGNORECASE=2, M=8, MULTILINE=8, S=16, DOTALL=16,
         X=64, VERBOSE=64, U=0, UNICODE=0, L=0, LOCALE=0,
         match=lambda p, s, f=0: re_compile(p, f).match(s), search=lambda p, s, f=0: re_compile(p, f).search(s),
         split=lambda p, s, m=0, f=0: re_compile(p, f).split(s, m), sub=lambda p, r, s, c=0, f=0: re_compile(p, f).sub(r, s, c),
         findall=lambda p, s, f=0: re_compile(p, f).findall(s), finditer=lambda p, s, f=0: iter(re_compile(p, f).finditer(s)))


# ---------------------------------------------------------------- string

def _atoi(s, base=10):
    return rt.int_(s, base)


def _atol(s, base=10):
    if isinstance(s, str) and s[-1:] in ('l', 'L') and len(s) > 1:
        s = s[:-1]
    return rt.int_(s, base)


string = mod('string', atoi=_atoi, atol=_atol, atof=rt.float_, digits='0123456789', hexdigits='0123456789abcdefABCDEF',
             letters='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ', ascii_letters='abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ',
             ascii_lowercase='abcdefghijklmnopqrstuvwxyz', ascii_uppercase='ABCDEFGHIJKLMNOPQRSTUVWXYZ', whitespace='\t\n\x0b\x0c\r ',
             printable=''.join(map(chr, range(32, 127))) + '\t\n\r\x0b\x0c', punctuation='!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~',
             join=lambda l, s=' ': rt.join(s, l), split=lambda s, *a: rt.mcall(s, 'split', *a), replace=lambda s, *a: rt.mcall(s, 'replace', *a),
             strip=lambda s, *a: rt.mcall(s, 'strip', *a), upper=lambda s: rt.mcall(s, 'upper'), lower=lambda s: rt.mcall(s, 'lower'),
             find=lambda s, *a: rt.mcall(s, 'find', *a), zfill=lambda s, w: rt.mcall(s, 'zfill', w), maketrans=lambda a, b: _maketrans(a, b),
             ljust=lambda s, *a: rt.mcall(s, 'ljust', *a), rjust=lambda s, *a: rt.mcall(s, 'rjust', *a), count=lambda s, *a: rt.mcall(s, 'count', *a),
             rfind=lambda s, *a: rt.mcall(s, 'rfind', *a), index=lambda s, *a: rt.mcall(s, 'index', *a), lstrip=lambda s, *a: rt.mcall(s, 'lstrip', *a),
             rstrip=lambda s, *a: rt.mcall(s, 'rstrip', *a), translate=lambda s, *a: rt.mcall(s, 'translate', *a))


def _maketrans(a, b):
    if not isinstance(a, str) or not isinstance(b, str):
        raise Unsupported('maketrans of symbolic text')
    if len(a) != len(b):
        raise ValueError('maketrans arguments must have same length')
    t = [chr(i) for i in range(256)]
    for x, y in zip(a, b):
        t[ord(x)] = y
    return ''.join(t)


# ---------------------------------------------------------------- logging and friends

class Logger(object):
    def _log(self, *a, **k):
        # the message is formatted as logging would (errors inside logging never propagate)
        return None

    debug = info = warning = warn = error = critical = exception = log = setLevel = addHandler = removeHandler = _log
    handlers = []
    level = 0
    propagate = True

    def isEnabledFor(self, *a):
        return True

    def getEffectiveLevel(self):
        return 10


LOGGER = Logger()
_noop = lambda *a, **k: None
logging = mod('logging', getLogger=lambda *a: LOGGER, DEBUG=10, INFO=20, WARNING=30, WARN=30, ERROR=40, CRITICAL=50,
              Logger=Logger, basicConfig=_noop, NullHandler=object, StreamHandler=object, Formatter=object, Handler=object,
              debug=_noop, info=_noop, warning=_noop, warn=_noop, error=_noop, critical=_noop, exception=_noop)
traceback = mod('traceback', print_exc=_noop, format_exc=lambda *a: SymText(), print_stack=_noop, print_exception=_noop,
                format_exception=lambda *a: [SymText()])
warnings = mod('warnings', warn=_noop, filterwarnings=_noop, simplefilter=_noop)


def _noclock(*a):
    raise Unsupported('real clock: the harness must stub it')


time = mod('time', time=_noclock, sleep=_noclock, clock=_noclock, ctime=lambda *a: SymText(), strftime=lambda *a: SymText())


class SocketError(OSError):
    pass


class SocketTimeout(SocketError):
    pass


def _nonet(*a, **k):
    raise Unsupported('real network: the harness must stub it')


socket = mod('socket', socket=_nonet, AF_INET=2, SOCK_DGRAM=2, SOCK_STREAM=1, SOL_SOCKET=65535, SO_REUSEADDR=4, error=SocketError,
             timeout=SocketTimeout, gethostbyname=_nonet, inet_aton=_nonet, inet_ntoa=_nonet, gaierror=SocketError, herror=SocketError,
             setdefaulttimeout=_noop, IPPROTO_UDP=17)


class URLError(IOError):
    def __init__(self, reason):
        self.args = (reason,)
        self.reason = reason


class UHTTPError(URLError):
    def __init__(self, url, code, msg, hdrs, fp):
        self.code = code
        self.msg = msg
        self.hdrs = hdrs
        self.headers = hdrs
        self.fp = fp
        self.filename = url
        self.url = url

    def read(self, *a):
        return self.fp.read(*a)


class URequest(object):
    def __init__(self, url, data=None, headers={}, origin_req_host=None, unverifiable=False):
        self.url = url
        self.data = data
        self.headers = {}
        for k in headers:
            self.add_header(k, rt.getitem(headers, k))

    def add_header(self, k, v):
        rt.setitem(v, self.headers, rt.mcall(k, 'capitalize') if isinstance(k, str) else k)

    def get_full_url(self):
        return self.url

    def get_data(self):
        return self.data

    def add_data(self, d):
        self.data = d

    def has_data(self):
        return self.data is not None

    def get_method(self):
        return 'POST' if self.data is not None else 'GET'

    def get_header(self, k, d=None):
        return self.headers.get(k, d)

    def has_header(self, k):
        return k in self.headers

    def header_items(self):
        return list(self.headers.items())


urllib2 = mod('urllib2', Request=URequest, urlopen=_nonet, HTTPError=UHTTPError, URLError=URLError)


class WebobHeaders(object):
    """case-insensitive header list"""
    def __init__(self, items):
        self.l = list(items)

    def __getitem__(self, k):
        for a, v in reversed(self.l):
            if a.lower() == k.lower():
                return v
        raise KeyError(k)

    def __contains__(self, k):
        return any(a.lower() == k.lower() for a, v in self.l)

    def get(self, k, d=None):
        try:
            return self[k]
        except KeyError:
            return d

    def items(self):
        return list(self.l)

    def keys(self):
        return [a for a, v in self.l]

    has_key = __contains__


class WebobResponse(object):
    def __init__(self, body=None, status=None, headerlist=None, **kw):
        self.body = body
        if status is None:
            status = '200 OK'
        if isinstance(status, int):
            status = '%d OK' % status
        self.status = status
        self.headerlist = headerlist if headerlist is not None else [('Content-Type', 'text/html; charset=UTF-8'), ('Content-Length', '0')]
        self.headers = WebobHeaders(self.headerlist)

    @property
    def status_int(self):
        return rt.int_(rt.getitem(rt.mcall(self.status, 'split'), 0))


webob = mod('webob', Response=WebobResponse, Request=URequest)


# ---------------------------------------------------------------- eventlet

ev_api = mod('eventlet.api', sleep=_noop, spawn=_noop, kill=_noop, getcurrent=_noop, TimeoutError=type('TimeoutError', (Exception,), {}))
ev_util = mod('eventlet.util', wrap_socket_with_coroutine_socket=_noop)
ev_coros = mod('eventlet.coros', queue=_noop)
eventlet = mod('eventlet', api=ev_api, util=ev_util, coros=ev_coros)


# ---------------------------------------------------------------- LLSD

class LLSDParseError(Exception):
    pass


class LLSDSerializationError(TypeError):
    pass


class SymDoc(object):
    """the XML document of a value that contains symbolic parts: parse(format_xml(v)) == v is the contract of llbase.llsd"""
    __slots__ = ('v',)
    _symcmp_ = True

    def __init__(self, v):
        self.v = v

    def __len__(self):
        raise Unsupported('length of a symbolic LLSD document')

    def __bool__(self):
        return True

    def __eq__(self, o):
        if type(o) is SymDoc:
            return rt.in_(self.v, [o.v])
        return False

    def __ne__(self, o):
        return not_(self == o)

    __hash__ = None

    def strip(self, *a):
        if a:
            raise Unsupported('strip of a symbolic LLSD document')
        return self

    def skeleton(self):
        return '<?xml version="1.0" ?><llsd>' + self._sk(self.v) + '</llsd>'

    def _sk(self, x):
        if isinstance(x, dict):
            r = '<map>'
            for k, v in dict.items(x):
                r = r + '<key>%s</key>' % (rt.unk(k),) + self._sk(v)
            return r + '</map>'
        if isinstance(x, list):
            r = '<array>'
            for y in x:
                r = r + self._sk(y)
            return r + '</array>'
        if isinstance(x, (str, U)):
            return '<string>%s</string>' % x
        if type(x) is SymBytes:
            for c in x.b:
                if type(c) is not int and bool(mk_bool(z3.Or(c == 60, c == 62, c == 38, c < 32, c > 126))):
                    raise Unsupported('text of a symbolic LLSD document')
            return '<string>' + x + '</string>'
        if x is None:
            return '<undef />'
        if type(x) in (SymInt, int, bool, SymBool):
            return '<integer>1</integer>'
        raise Unsupported('text of a symbolic LLSD document')


rt.TYPENORM[SymDoc] = str


def _llsd_ok(x):
    if x is None or isinstance(x, (bool, int, float, str)) or type(x) in (SymInt, SymBool, SymFloat, SymBytes, SymUni, UUID_):
        return True
    if isinstance(x, (list, tuple)):
        return all(_llsd_ok(y) for y in x)
    if isinstance(x, dict):
        return all(isinstance(rt.unk(k), (str,)) or type(rt.unk(k)) in (SymBytes, SymUni, SymInt, int) for k in x) \
            and all(_llsd_ok(y) for y in dict.values(x))
    return False


def _llsd_copy(x):
    if isinstance(x, (list, tuple)):
        return [_llsd_copy(y) for y in x]
    if isinstance(x, dict):
        r = {}
        for k, v in dict.items(x):
            rt.dset(r, rt.unk(k), _llsd_copy(v))
        return r
    return x


def llsd_format_xml(x):
    if not _llsd_ok(x):
        raise LLSDSerializationError('Cannot serialize unknown type')
    return SymDoc(_llsd_copy(x))


LLSD_DECL = _re.compile(r'^\s*(?:<\?[\x09\x0A\x0D\x20-\x7e]+\?>)|(?:<llsd>)')


def llsd_parse(s, *a):
    if type(s) is SymDoc:
        return _llsd_copy(s.v)
    if type(s) in ALLSYM:
        raise Unsupported('parse of symbolic LLSD text')
    if s is None or s == '':
        return False
    if not isinstance(s, str):
        raise TypeError('LLSD document expected')
    s = s.lstrip()
    if s == '':
        return False
    if s.startswith('<?llsd/binary?>'):
        raise Unsupported('LLSD binary')
    if s.startswith('<'):
        if not LLSD_DECL.match(s):
            raise LLSDParseError('Invalid XML Declaration')
        try:
            root = ET.fromstring(s.encode('latin-1'))
        except ET.ParseError as e:
            raise LLSDParseError(str(e))
        ch = list(root)
        if not ch:
            raise IndexError('index out of range: 0')
        return _llsd_el(ch[0])
    # notation: only what a harness uses (malformed text)
    if s[0] in "tTfF!iruldb[{'\"s0123456789":
        raise Unsupported('LLSD notation')
    raise LLSDParseError('invalid token at index 0: %d' % ord(s[0]))


def _llsd_el(e):
    t, x = e.tag, e.text
    if t == 'map':
        r = {}
        ch = list(e)
        for i in range(0, len(ch), 2):
            if i + 1 >= len(ch):
                raise IndexError('index out of range: %d' % (i + 1))
            r[_txt(ch[i].text)] = _llsd_el(ch[i + 1])
        return r
    if t == 'array':
        return [_llsd_el(c) for c in e]
    if t == 'string':
        return _txt(x)
    if t == 'integer':
        return int(x) if x and x.strip() else 0
    if t == 'real':
        return float(x) if x and x.strip() else 0.0
    if t == 'boolean':
        return x in ('1', '1.0', 'true')
    if t == 'undef':
        return None
    if t == 'uuid':
        return UUID_(x or '00000000-0000-0000-0000-000000000000')
    if t == 'uri':
        return _txt(x)
    if t in ('date', 'binary'):
        raise Unsupported('LLSD ' + t)
    raise LLSDParseError('unknown LLSD element ' + t)


def _txt(x):
    if not x:
        return ''
    if all(ord(c) < 128 for c in x):
        return x
    return U(x)


llsd = mod('llbase.llsd', parse=llsd_parse, format_xml=llsd_format_xml, LLSDParseError=LLSDParseError,
           LLSDSerializationError=LLSDSerializationError)
llbase = mod('llbase', llsd=llsd)


# ---------------------------------------------------------------- small modules

types = mod('types', ListType=list, DictType=dict, DictionaryType=dict, StringType=str, UnicodeType=U, IntType=int, LongType=rt.long_,
            FloatType=float, BooleanType=bool, NoneType=type(None), TupleType=tuple, FunctionType=type(mod), LambdaType=type(mod),
            MethodType=type(Struct('B').pack), StringTypes=(str, U), ObjectType=object, TypeType=type, ModuleType=_types.ModuleType,
            ClassType=type, InstanceType=object, FileType=rt.file_, GeneratorType=type((x for x in ())),
            __all__=['ListType', 'DictType', 'DictionaryType', 'StringType', 'UnicodeType', 'IntType', 'LongType', 'FloatType',
                     'BooleanType', 'NoneType', 'TupleType', 'FunctionType', 'MethodType', 'StringTypes', 'ObjectType', 'TypeType',
                     'ModuleType', 'ClassType', 'InstanceType', 'FileType', 'GeneratorType', 'LambdaType'])


class array_(object):
    def __init__(self, code, init=()):
        if code not in ('B', 'c', 'b'):
            raise Unsupported('array.array')
        self.typecode, self.itemsize = code, 1
        self.l = []
        if isinstance(init, (str, SymBytes)):
            self.fromstring(init)
        else:
            self.extend(init)

    def append(self, x):
        if self.typecode == 'c':
            if not isinstance(x, (str, SymBytes)) or len(x) != 1:
                raise TypeError('array item must be char')
            self.l.append(x)
            return
        lo, hi = (0, 255) if self.typecode == 'B' else (-128, 127)
        if not isinstance(x, (int, SymInt)):
            raise TypeError('an integer is required')
        if not sym.int_in(x, lo, hi):
            raise OverflowError('value out of range')
        self.l.append(x)

    def extend(self, it):
        for x in (it.l if isinstance(it, array_) else rt.iter_(it)):
            self.append(x)

    def fromstring(self, s):
        for c in s:
            if self.typecode == 'c':
                self.l.append(c)
            else:
                v = rt.ord_(c)
                self.l.append(v if self.typecode == 'B' else rt.getitem(unpack_('b', c), 0))

    def fromlist(self, l):
        self.extend(l)

    def tostring(self):
        return rt.join('', [x if self.typecode == 'c' else rt.chr_(x & 255) for x in self.l])

    def tolist(self):
        return list(self.l)

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return iter(list(self.l))

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = array_(self.typecode)
            r.l = self.l[i]
            return r
        return rt.getitem(self.l, i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            raise Unsupported('array slice assignment')
        t = array_(self.typecode, [v])
        rt.setitem(t.l[0], self.l, i)


array = mod('array', array=array_)
pprint = mod('pprint', pprint=_noop, pformat=lambda *a: SymText())


def deepcopy(x, memo=None):
    t = type(x)
    if t in ALLSYM or t in (int, float, str, U, bool, UUID_) or x is None:
        return x
    if isinstance(x, (list, dict)) and rt.is_native_dict(x):
        return _llsd_deep(x)
    if t in (list, tuple):
        return t([deepcopy(y) for y in x])
    if hasattr(t, '__deepcopy__'):
        return x.__deepcopy__({})
    if isinstance(x, (dict, list, rt.PySet)):
        raise Unsupported('deepcopy of ' + t.__name__)
    r = object.__new__(t)
    for k, v in _state(x):
        object.__setattr__(r, k, deepcopy(v))
    return r


def _state(x):
    out = list(getattr(x, '__dict__', {}).items())
    for c in type(x).__mro__:
        sl = c.__dict__.get('__slots__', ())
        for n in ((sl,) if isinstance(sl, str) else sl):
            if hasattr(x, n):
                out.append((n, getattr(x, n)))
    return out


def _llsd_deep(x):
    r = {}
    for k, v in dict.items(x):
        rt.dset(r, rt.unk(k), deepcopy(v))
    return r


def copy_(x):
    t = type(x)
    if t in ALLSYM or t in (int, float, str, U, bool, UUID_) or x is None:
        return x
    if t in (list, tuple):
        return t(x)
    if rt.is_native_dict(x):
        return rt.dictm(x, 'copy', (), {})
    if hasattr(t, '__copy__'):
        return x.__copy__()
    if isinstance(x, rt.PySet):
        return x.copy()
    if isinstance(x, (dict, list)):
        raise Unsupported('copy of ' + t.__name__)
    r = object.__new__(t)
    for k, v in _state(x):
        object.__setattr__(r, k, v)
    return r


copy = mod('copy', copy=copy_, deepcopy=deepcopy)


class _Paths(object):
    pass


ospath = mod('os.path', **{n: getattr(_os.path, n) for n in 'join dirname basename exists abspath isfile isdir splitext split normpath realpath'.split()})
os_ = mod('os', path=ospath, sep='/', linesep='\n', environ={}, getcwd=_os.getcwd, name='java')
sys_ = mod('sys', argv=[''], path=[], modules={}, maxint=2 ** 31 - 1, byteorder='big', platform='java', version='2.7', stdout=None, stderr=None,
           version_info=(2, 7, 3, 'final', 0), exc_info=_sys.exc_info, exc_clear=_noop, exit=_nonet)


def _chain(*its):
    for it in its:
        for x in rt.iter_(it):
            yield x


def _izip(*its):
    return zip(*[rt.iter_(i) for i in its])


import itertools as _it
itertools = mod('itertools', chain=_chain, izip=_izip, count=_it.count, repeat=_it.repeat, islice=_it.islice,
                imap=lambda f, *its: (rt.call(f, *xs) for xs in zip(*[rt.iter_(i) for i in its])), takewhile=_it.takewhile,
                dropwhile=_it.dropwhile, cycle=_it.cycle, product=_it.product, groupby=_it.groupby, izip_longest=_it.zip_longest,
                ifilter=lambda f, it: (x for x in rt.iter_(it) if (rt.call(f, x) if f is not None else x)),
                ifilterfalse=lambda f, it: (x for x in rt.iter_(it) if not (rt.call(f, x) if f is not None else x)),
                starmap=lambda f, it: (rt.call(f, *xs) for xs in rt.iter_(it)), tee=_it.tee, permutations=_it.permutations,
                combinations=_it.combinations)
_chain.from_iterable = lambda its: (x for it in rt.iter_(its) for x in rt.iter_(it))
functools = mod('functools', partial=lambda f, *a, **k: _partial(f, a, k), reduce=rt.reduce_, wraps=_functools.wraps)


def _partial(f, a, k):
    def g(*b, **kk):
        d = dict(k)
        d.update(kk)
        return rt.call(f, *(a + b), **d)
    return g


operator = mod('operator', itemgetter=lambda *ks: (lambda o: rt.getitem(o, ks[0]) if len(ks) == 1 else tuple(rt.getitem(o, k) for k in ks)),
               attrgetter=_operator.attrgetter, add=_operator.add, sub=_operator.sub, mul=_operator.mul, xor=_operator.xor, or_=_operator.or_,
               and_=_operator.and_, eq=_operator.eq, ne=_operator.ne, lt=rt.lt, gt=rt.gt, le=rt.le, ge=rt.ge, not_=rt.not_,
               neg=_operator.neg, getitem=rt.getitem, methodcaller=lambda n, *a, **k: (lambda o: rt.mcall(o, n, *a, **k)),
               setitem=lambda o, k, v: rt.setitem(v, o, k), contains=lambda o, x: rt.in_(x, o), is_=rt.is_, is_not=rt.isnot, mod=rt.mod, div=rt.div,
               floordiv=_operator.floordiv, lshift=_operator.lshift, rshift=_operator.rshift, invert=_operator.invert, concat=_operator.add, truth=rt.bool_)


class defaultdict_(dict):
    def __init__(self, f=None, *a, **k):
        dict.__init__(self)
        self.default_factory = f
        rt.dictm(self, 'update', a, k)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError('missing')
        v = rt.call(self.default_factory)
        rt.dset(self, k, v)
        return v


class Counter_(dict):
    def __init__(self, it=(), **k):
        dict.__init__(self)
        if rt.is_native_dict(it):
            rt.dictm(self, 'update', (it,), {})
        else:
            for x in rt.iter_(it):
                rt.setitem(rt.getitem(self, x) + 1, self, x)
        rt.dictm(self, 'update', (), k)

    def __missing__(self, k):
        return 0

    def most_common(self, n=None):
        raise Unsupported('Counter.most_common')

    elements = subtract = most_common


def namedtuple_(name, fields, **k):
    if k:
        raise Unsupported('namedtuple options')
    import collections
    return collections.namedtuple(name, fields)


class OrderedDict_(dict):
    def __init__(self, *a, **k):
        dict.__init__(self)
        rt.dictm(self, 'update', a, k)


class deque_(list):
    def __init__(self, it=(), maxlen=None):
        if maxlen is not None:
            raise Unsupported('deque with maxlen')
        list.__init__(self, rt.iter_(it))

    def rotate(self, n=1):
        for _ in range(abs(n) if len(self) else 0):
            if n > 0:
                self.appendleft(list.pop(self))
            else:
                list.append(self, self.popleft())

    def extendleft(self, it):
        for x in rt.iter_(it):
            self.appendleft(x)

    def popleft(self):
        if not self:
            raise IndexError('pop from an empty deque')
        return list.pop(self, 0)

    def appendleft(self, x):
        list.insert(self, 0, x)


collections = mod('collections', defaultdict=defaultdict_, OrderedDict=OrderedDict_, deque=deque_, Counter=Counter_,
                  namedtuple=namedtuple_)


class StringIO_(object):
    def __init__(self, s=''):
        self.s = s
        self.p = 0

    def read(self, n=-1):
        if type(self.s) is SymDoc:
            # read as a whole
            if self.p:
                return ''
            self.p = 1
            return self.s
        r = self.s[self.p:] if n is None or n < 0 else self.s[self.p:self.p + n]
        self.p += len(r)
        return r

    def seek(self, p, w=0):
        if type(p) is SymInt:
            p = p.__index__()
        self.p = p if w == 0 else self.p + p if w == 1 else len(self.s) + p

    def tell(self):
        return self.p

    def write(self, x):
        if not isinstance(x, (str, SymBytes, SymText)):
            raise TypeError('expected a string')
        if self.p < len(self.s):
            if type(self.s) is SymDoc:
                raise Unsupported('write into a document')
            self.s = self.s[:self.p] + x + self.s[self.p + len(x):]
            self.p += len(x)
        else:
            self.s = self.s + '\0' * (self.p - len(self.s)) + x
            self.p = len(self.s)

    def writelines(self, xs):
        for x in rt.iter_(xs):
            self.write(x)

    def flush(self):
        pass

    def truncate(self, n=None):
        self.s = self.s[:self.p if n is None else n]

    def getvalue(self):
        return self.s

    def close(self):
        pass

    def readline(self):
        i = rt.mcall(self.s, 'find', '\n', self.p)
        e = len(self.s) if i < 0 else i + 1
        r = self.s[self.p:e]
        self.p = e
        return r

    def next(self):
        l = self.readline()
        if len(l) == 0:
            raise StopIteration
        return l

    __next__ = next

    def __iter__(self):
        return self

    def readlines(self):
        return list(self)


StringIO = mod('StringIO', StringIO=StringIO_)
random = mod('random', random=_nonet, randint=_nonet, choice=_nonet, uniform=_nonet)
urlparse = mod('urlparse')
pkgutil = mod('pkgutil', extend_path=lambda p, n: p)
threading = mod('threading', Thread=_nonet, Lock=lambda: _Lock(), RLock=lambda: _Lock())


class _Lock(object):
    def acquire(self, *a):
        return True

    def release(self):
        pass

    __enter__ = acquire

    def __exit__(self, *a):
        return False


__future__ = mod('__future__', with_statement=True, division=None, absolute_import=True, print_function=None, unicode_literals=None)
import contextlib as _cl
import bisect as _bisect
import heapq as _heapq
contextlib = mod('contextlib', contextmanager=_cl.contextmanager, closing=_cl.closing)
bisect = mod('bisect', bisect=_bisect.bisect_right, bisect_left=_bisect.bisect_left, bisect_right=_bisect.bisect_right, insort=_bisect.insort,
             insort_left=_bisect.insort_left, insort_right=_bisect.insort_right)
heapq = mod('heapq', heapify=_heapq.heapify, heappush=_heapq.heappush, heappop=_heapq.heappop, heapreplace=_heapq.heapreplace,
            heappushpop=_heapq.heappushpop)
io = mod('io', BytesIO=StringIO_)


class QueueEmpty(Exception):
    pass


QueueEmpty.__name__ = 'Empty'


class Queue_(object):
    """a queue used by one thread"""
    def __init__(self, maxsize=0):
        if maxsize:
            raise Unsupported('bounded queue')
        self.q = []

    def put(self, x, *a):
        self.q.append(x)

    put_nowait = put

    def get(self, block=True, timeout=None):
        if not self.q:
            if block and timeout is None:
                raise Unsupported('blocking get of an empty queue')
            raise QueueEmpty()
        return self.q.pop(0)

    def get_nowait(self):
        return self.get(False)

    def empty(self):
        return not self.q

    def qsize(self):
        return len(self.q)

    def task_done(self):
        pass

    def full(self):
        return False


Queue = mod('Queue', Queue=Queue_, Empty=QueueEmpty)
weakref = mod('weakref', ref=lambda o, cb=None: (lambda: o), proxy=lambda o, cb=None: o)
inspect = mod('inspect', isclass=lambda x: isinstance(x, type), isfunction=lambda x: type(x) is type(mod))

MODULES = {'struct': struct, 'binascii': binascii, 'uuid': uuid, 'math': math, 're': re, 'string': string, 'logging': logging,
           'traceback': traceback, 'warnings': warnings, 'time': time, 'socket': socket, 'urllib2': urllib2, 'webob': webob,
           'eventlet': eventlet, 'eventlet.api': ev_api, 'eventlet.util': ev_util, 'eventlet.coros': ev_coros, 'llbase': llbase,
           'llbase.llsd': llsd, 'types': types, 'array': array, 'pprint': pprint, 'copy': copy, 'os': os_, 'os.path': ospath,
           'sys': sys_, 'itertools': itertools, 'functools': functools, 'operator': operator, 'collections': collections,
           'StringIO': StringIO, 'cStringIO': StringIO, 'random': random, 'urlparse': urlparse, 'pkgutil': pkgutil, 'threading': threading,
           '__future__': __future__, 'base64': base64_, 'codecs': codecs, 'contextlib': contextlib, 'bisect': bisect, 'heapq': heapq,
           'io': io, 'Queue': Queue, 'weakref': weakref, 'inspect': inspect}


# ---------------------------------------------------------------- what is not modelled

class Poison(object):
    """a library member without a model: it can be imported, named and stored, its use ends the path as undecided"""
    def __init__(self, name):
        object.__setattr__(self, '_poison_', name)

    def __call__(self, *a, **k):
        if sym.CTX is None:
            return Poison(self._poison_ + '()')
        raise Unsupported('library member %s is not modelled' % self._poison_)

    def __getattr__(self, n):
        if n.startswith('__') and n.endswith('__'):
            raise AttributeError(n)
        if sym.CTX is None:
            return Poison(self._poison_ + '.' + n)
        raise Unsupported('library member %s.%s is not modelled' % (self._poison_, n))

    def _no(self, *a, **k):
        raise Unsupported('library member %s is not modelled' % self._poison_)

    __setattr__ = __eq__ = __ne__ = __lt__ = __gt__ = __le__ = __ge__ = __len__ = __iter__ = __getitem__ = __contains__ = _no
    __bool__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __enter__ = __exit__ = __str__ = _no
    __hash__ = object.__hash__
    __mro_entries__ = lambda self, bases: (PoisonBase,)
    _poison_type_ = True


class PoisonABC(Poison):
    """an abstract class that is only modelled for isinstance"""
    def __init__(self, name, c):
        Poison.__init__(self, name)
        object.__setattr__(self, '_abc_', c)


import collections.abc as _abc
import numbers as _numbers
for _n in 'Sequence MutableSequence Mapping MutableMapping Iterable Sized Container Callable Hashable Iterator'.split():
    collections.__dict__[_n] = PoisonABC('collections.' + _n, getattr(_abc, _n))
MODULES['numbers'] = mod('numbers', **{n: PoisonABC('numbers.' + n, getattr(_numbers, n)) for n in 'Number Integral Real Complex Rational'.split()})


class PoisonBase(object):
    """base class without a model: using an instance ends the path as undecided"""
    def __new__(cls, *a, **k):
        raise Unsupported('instance of a class whose base class is not modelled')


JYTHON_BUILTIN = set('zlib cPickle cStringIO operator itertools time thread _sre sha md5 binascii math cmath errno exceptions gc imp jarray os signal '
                     'array struct datetime locale select posix _csv _functools _collections _random _weakref _threading _hashlib'.split())
_jar = None


def placeholder(name):
    """a module the real interpreter has, but that is not modelled"""
    global _jar
    if _jar is None:
        import glob
        import zipfile
        _jar = set(JYTHON_BUILTIN)
        for j in glob.glob('/usr/share/java/jython*.jar'):
            try:
                for n in zipfile.ZipFile(j).namelist():
                    if n.startswith('Lib/') and n.endswith(('.py', '.class')):
                        n = n[4:].rsplit('.', 1)[0].replace('$py', '').replace('/', '.')
                        _jar.add(n[:-9] if n.endswith('.__init__') else n)
            except (OSError, zipfile.BadZipFile):
                pass
    if name not in _jar:
        return None
    m = mod(name)
    m.__dict__['__getattr__'] = lambda n: Poison(name + '.' + n) if not n.startswith('__') else (_ for _ in ()).throw(AttributeError(n))
    MODULES[name] = m
    return m


def member(m, attr):
    """a member of a modelled module that has no model itself"""
    return Poison(m.__name__ + '.' + attr)
