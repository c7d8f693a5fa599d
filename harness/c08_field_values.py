"""C08: every field type packs to its wire bytes and unpacks to the same value, at any position of a buffer."""
import struct
import uuid
import h
import lib_ref
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion
from pyogp.lib.base.exc import DataUnpackingError
from pyogp.lib.base.message.data_packer import DataPacker
from pyogp.lib.base.message.data_unpacker import DataUnpacker
from pyogp.lib.base.message.msgtypes import MsgType, EndianType, sizeof

INFO = dict(
    bounds='all 20 field types; all integers of the field width, all floats, identifiers, addresses; strings of up to 6 bytes or 5 '
           'characters; unpacking at offsets 0 to 4 of a buffer with arbitrary neighbours and at offsets up to 65536 of a long one; all shorter buffers',
    outside='too short buffers for addresses and the two types read as tuples of any length (the deserializer checks lengths first, C06); NaN payloads; integers outside the width of their field; longer strings',
    stubs='struct and uuid are engine models of the Jython library',
)

TYPES = {'U8': MsgType.MVT_U8, 'U16': MsgType.MVT_U16, 'U32': MsgType.MVT_U32, 'U64': MsgType.MVT_U64, 'S8': MsgType.MVT_S8,
         'S16': MsgType.MVT_S16, 'S32': MsgType.MVT_S32, 'S64': MsgType.MVT_S64, 'F32': MsgType.MVT_F32, 'F64': MsgType.MVT_F64,
         'LLVector3': MsgType.MVT_LLVector3, 'LLVector3d': MsgType.MVT_LLVector3d, 'LLVector4': MsgType.MVT_LLVector4,
         'LLQuaternion': MsgType.MVT_LLQuaternion, 'LLUUID': MsgType.MVT_LLUUID, 'BOOL': MsgType.MVT_BOOL,
         'IPADDR': MsgType.MVT_IP_ADDR, 'IPPORT': MsgType.MVT_IP_PORT, 'Fixed': MsgType.MVT_FIXED, 'Variable': MsgType.MVT_VARIABLE}
P, U = DataPacker(), DataUnpacker()


def both(tp, off):
    f = lib_ref.gen(tp, 5, 'v', 5, 'Data', off)
    w = f.wire
    raw = P.pack_data(f.value, TYPES[tp])
    if tp == 'Variable':
        h.check(h.eq(raw, f.value + '\0'), 'a string is terminated')
        n = 6
    else:
        h.check(h.eq(raw, w), 'the packed bytes are the wire form')
        n = len(w)
    if tp not in ('Fixed', 'Variable'):
        h.check(sizeof(TYPES[tp]) == n, 'the size of the type is that of its bytes')
        pre, post = h.bytes('pre', off) if off < 9 else '\x5a' * off, h.bytes('post', 2)
        if off:
            h.check(f.same(U.unpack_data(pre + raw + post, TYPES[tp], off)), 'unpacking at a position reads only its bytes')
            h.check(f.same(U.unpack_data(pre + raw, TYPES[tp], off)), 'unpacking at the end of a buffer')
        else:
            h.check(f.same(U.unpack_data(raw + post, TYPES[tp], 0)), 'unpacking at the start reads only its bytes')
        d = U.unpack_data(pre + raw + post, TYPES[tp], start_index=off, var_size=n)
        h.check(f.same(d), 'unpacking with an explicit size')
    else:
        d = U.unpack_data('zz' + raw + 'yy', TYPES[tp], start_index=2, var_size=n)
        h.check(h.eq(d, raw), 'a sized field is its bytes')
    if tp not in ('Fixed', 'Variable'):
        h.check(f.same(U.unpack_data(raw, TYPES[tp])), 'unpacking a whole buffer')
    h.observe('raw', raw)


def from_wire(tp):
    """every byte pattern of the width unpacks to a value that packs to it"""
    n = lib_ref.SIZES[tp]
    b = h.bytes('b', n)
    if tp in ('F32', 'LLVector3', 'LLVector4', 'F64', 'LLVector3d'):
        code, size = ('f', 4)
        if tp in ('F64', 'LLVector3d'):
            code, size = ('d', 8)
        for k in range(n // size):
            h.assume(h.not_(h.is_nan(struct.unpack('<' + code, b[k * size:k * size + size])[0])))
    h.check(h.eq(P.pack_data(U.unpack_data(b, TYPES[tp]), TYPES[tp]), b), 'unpacking and packing restores every byte pattern')


def endian(tp):
    """an explicit byte order overrides that of the type"""
    lo, hi = lib_ref.RANGES[tp]
    n = lib_ref.SIZES[tp]
    v = h.int('v', lo, hi)
    m = (1 << (8 * n)) - 1
    for e, want in ((EndianType.BIG, lib_ref.be(v & m, n)), (EndianType.LITTLE, lib_ref.le(v & m, n)), (EndianType.NETWORK, lib_ref.be(v & m, n))):
        raw = P.pack_data(v, TYPES[tp], e)
        h.check(h.eq(raw, want), 'explicit byte order when packing')
        h.check(U.unpack_data(raw, TYPES[tp], endian_type=e) == v, 'explicit byte order when unpacking')
        h.check(U.unpack_data('x' + raw + 'x', TYPES[tp], 1, endian_type=e) == v, 'explicit byte order at a position')


def short(tp):
    n = lib_ref.SIZES[tp]
    k = h.choice('length', range(n))
    b = h.bytes('b', k)
    try:
        U.unpack_data(b, TYPES[tp])
        ok = False
    except (DataUnpackingError, IndexError, ValueError, TypeError, struct.error):
        ok = True
    h.check(ok, 'a value is not made from too few bytes')


def text(n):
    t = h.unicode('t', n)
    h.check(h.eq(P.pack_data(t, MsgType.MVT_VARIABLE), t.encode('utf-8') + '\0'), 'text is UTF-8 with a terminator')
    b = h.bytes('b', n)
    h.check(h.eq(P.pack_data(b, MsgType.MVT_VARIABLE), b + '\0'), 'bytes are kept')
    h.check(P.pack_data(None, MsgType.MVT_VARIABLE) == '\0', 'no text is only the terminator')


def others():
    t = h.int('t', 20, 1000)
    h.check(P.pack_data(1, t) is None and U.unpack_data('\0', t) is None, 'an unknown type gives nothing')


def tuples():
    raw, v = lib_ref.floats('v', 3, 'f')
    h.check(h.eq(P.pack_data(tuple(v), MsgType.MVT_LLVector3), raw), 'a vector may be a tuple')
    h.check(h.eq(P.pack_data(Vector3(X=v[0], Y=v[1], Z=v[2]), MsgType.MVT_LLVector3), raw), 'or an object')
    q = lib_ref.QUATS[h.choice('q', [0, 1, 2])]
    a = P.pack_data(tuple(q), MsgType.MVT_LLQuaternion)
    b = P.pack_data(Quaternion(X=q[0], Y=q[1], Z=q[2], W=q[3]), MsgType.MVT_LLQuaternion)
    h.check(a == b and len(a) == 12, 'a rotation may be a tuple or an object')


def rotations():
    """a rotation is packed as its first three components, of the form with a non-negative last one"""
    raw, v = lib_ref.floats('v', 3, 'f')
    wr, w = lib_ref.floats('w', 1, 'f')
    w = w[0]
    r = P.pack_data((v[0], v[1], v[2], w), MsgType.MVT_LLQuaternion)
    if h.flag(w >= 0):
        h.check(h.eq(r, raw), 'a rotation is packed as its first three components')
    else:
        h.check(h.eq(r, struct.pack('<fff', -v[0], -v[1], -v[2])), 'of the equal rotation with a positive last component')


def identifiers():
    """an identifier may be one of the library or one of Python"""
    raw = h.bytes('raw', 16)
    u = UUID(bytes=raw)
    h.check(h.eq(P.pack_data(u, MsgType.MVT_LLUUID), raw), 'an identifier is packed as its bytes')
    h.check(h.eq(P.pack_data(u.data(), MsgType.MVT_LLUUID), raw), 'a standard identifier is packed as its bytes')
    h.check(h.eq(P.pack_data(uuid.UUID(bytes=raw), MsgType.MVT_LLUUID), raw), 'in network order')
    h.check(h.eq(U.unpack_data(P.pack_data(u.data(), MsgType.MVT_LLUUID), MsgType.MVT_LLUUID).get_bytes(), raw), 'and read back')


def cases(tier):
    out = []
    for t in sorted(TYPES):
        for off in ((0, 3, 255, 40000) if tier == 'quick' else (0, 1, 2, 3, 4, 127, 128, 255, 256, 9000, 32768, 40000, 65536)):
            out.append(('%s at %d' % (t, off), both, (t, off)))
        if t not in ('Fixed', 'Variable', 'LLQuaternion'):
            out.append(('%s from bytes' % t, from_wire, (t,)))
        if t in lib_ref.SIZES and t not in ('IPADDR', 'LLVector3d', 'LLVector4'):
            out.append(('%s too short' % t, short, (t,)))
        if t in lib_ref.RANGES:
            out.append(('%s byte order' % t, endian, (t,)))
    for n in range(0, 4 if tier == 'quick' else 6):
        out.append(('text of %d' % n, text, (n,)))
    out.append(('unknown types', others))
    out.append(('tuples', tuples))
    out.append(('rotations', rotations))
    out.append(('identifiers', identifiers))
    return out
