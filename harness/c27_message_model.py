"""C27: a message built from blocks keeps every block, repeat and value, in every view of it."""
import h
import lib_net
from pyogp.lib.base.message.message import Message, Block, Variable
from pyogp.lib.base.message.llsd_builder import LLSDMessageBuilder
from pyogp.lib.base.message.msgtypes import MsgType
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion
from pyogp.lib.base.helpers import Helpers

INFO = dict(
    bounds='messages of up to 4 (quick) or 5 (thorough) blocks under 2 block names in any order, given singly or in lists, with 0 to 3 values of any '
           'kind (integers, texts of up to 3 bytes or characters, doubles, booleans, none, lists); two messages at once; ack lists of up to 3; 40 blocks, 40 values, 300 acks and lists of 300 blocks; '
           'texts and binary values of up to 5 bytes of every field type for the display',
    outside='Message.to_llsd (documented as broken), the exact wording of the display',
    stubs='none',
)


def value(k):
    kind = h.choice('kind', ['int', 'text', 'none', 'unicode', 'float', 'list'] if k == 0 else ['int', 'bool'])
    if kind == 'int':
        return h.int('v', -0x80000000, 0xffffffff)
    if kind == 'text':
        return h.bytes('s', 3)
    if kind == 'unicode':
        return h.unicode('u', 2)
    if kind == 'float':
        return h.f64('f')
    if kind == 'bool':
        return h.flag(h.bool('b'))
    if kind == 'list':
        return [h.int('v', 0, 255), 'x']
    return None


def plan(n, rich):
    """[(block name, {variable: value})]"""
    out = []
    for k in range(n):
        name = h.choice('block', ['One', 'Two'])
        count = h.choice('values', [0, 1, 2] if rich else [1])
        d = {}
        for j in range(count):
            d['V%d' % j] = value(j) if rich else h.int('v', 0, 255)
        out.append((name, d))
    return out


def expected(blocks):
    want = {}
    for name, d in blocks:
        want.setdefault(name, []).append(d)
    return want


def build(name, blocks):
    how = h.choice('how', ['args', 'lists', 'one by one'])
    made = [Block(n, **d) for n, d in blocks]
    if how == 'args':
        return Message(name, *made), made
    if how == 'lists':
        k = len(made) // 2
        return Message(name, made[:k], *made[k:]), made
    m = Message(name)
    for b in made:
        m.add_block(b)
    return m, made


def same(m, name, want, made):
    h.check(m.name == name, 'the name is kept')
    h.check(sorted(m.blocks.keys()) == sorted(want.keys()), 'the block names are kept')
    for b in want:
        h.check(len(m[b]) == len(want[b]), 'every repeat of a block is kept')
        h.check(len(m.get_block(b)) == len(want[b]), 'in both ways of access')
        for k, d in enumerate(want[b]):
            got = m[b][k]
            h.check(got.name == b, 'a block has its name')
            h.check(sorted(got.vars.keys()) == sorted(d.keys()) == sorted(got.var_list), 'exactly its values')
            h.check(sorted([x.name for x in got.get_variables()]) == sorted(d.keys()), 'all of them')
            h.check(sorted(got().keys()) == sorted(d.keys()) and h.and_(*[h.eq(got()[v].data, d[v]) for v in d]), 'also by calling the block')
            for v in d:
                h.check(h.eq(got[v], d[v]), 'a value is kept')
                h.check(got.get_variable(v).name == v and h.eq(got.get_variable(v).data, d[v]), 'by variable')
                h.check(h.eq(got.get_variable(v)(), d[v]), 'by call')


def built(n, rich):
    blocks = plan(n, rich)
    m, made = build('Thing', blocks)
    want = expected(blocks)
    same(m, 'Thing', want, made)
    h.check(h.eq(m.to_dict(), {'message': 'Thing', 'body': want}), 'the dict holds every repeat and value')
    h.check(h.eq(m.to_dict(), {'message': 'Thing', 'body': want}), 'asking twice gives the same')


def two():
    """two messages do not share anything"""
    a, b = plan(2, False), plan(1, False)
    one, x = build('One', a)
    two, y = build('Two', b)
    one.add_ack(h.int('ack', 0, 99))
    one.add_block(Block('Late', V=1))
    one[a[0][0]][0].add_variable(Variable('New', 2))
    h.check(h.eq(two.to_dict(), {'message': 'Two', 'body': expected(b)}), 'the other message is not changed')
    h.check(two.acks == [] and two.num_acks == 0, 'nor are its acks')
    w = expected(a)
    w[a[0][0]][0]['New'] = 2
    w['Late'] = [{'V': 1}]
    h.check(h.eq(one.to_dict(), {'message': 'One', 'body': w}), 'the changed one has the additions')


def shared():
    """one block object in two messages, in two places"""
    v = h.int('v', 0, 255)
    b = Block('One', V=v)
    m = Message('M', b, [b, Block('Two', V=1)])
    h.check(h.eq(m.to_dict(), {'message': 'M', 'body': {'One': [{'V': v}, {'V': v}], 'Two': [{'V': 1}]}}), 'a block given twice counts twice')


def kept():
    """the dict holds the values themselves"""
    v, q, u = Vector3(X=1.0, Y=2.0, Z=3.0), Quaternion(X=0.5, Y=0.5, Z=0.5, W=0.5), UUID(bytes=h.bytes('u', 16))
    l, t = [h.int('v', 0, 9)], (1.0, 2.0, 3.0)
    m = Message('M', Block('One', V=v, Q=q, U=u, L=l, T=t))
    d = m.to_dict()['body']['One'][0]
    h.check(d['V'] is v and d['Q'] is q and d['U'] is u and d['L'] is l and d['T'] is t and len(d) == 5, 'vectors, rotations, identifiers, lists and tuples are kept as they are')
    b = m['One'][0]
    h.check(b['V'] is v and b['Q'] is q and b['U'] is u and b['L'] is l and b['T'] is t, 'also in the message')
    b = LLSDMessageBuilder()
    b.new_message('M')
    b.next_block('One')
    b.add_data('V', v, None)
    b.add_data('L', l, None)
    d = b.build_message()[0]['One'][0]
    h.check(d['V'] is v and d['L'] is l, 'and in the built one')


def lists(n):
    """a list of blocks that is given to two messages"""
    v = h.int('v', 0, 255)
    bl = [Block('One', V=v + k) for k in range(n)]
    given = h.choice('given', ['first', 'second', 'both'])
    one = Message('M', bl, Block('Two', W=1)) if given != 'second' else Message('M', Block('Two', W=1), bl)
    two = Message('N', bl)
    want = [{'V': v + k} for k in range(n)]
    one.add_block(Block('One', V=7))
    h.check(len(bl) == n, 'a message that grows leaves the list it was given alone')
    w = {'One': want} if n else {}
    h.check(h.eq(two.to_dict(), {'message': 'N', 'body': w}), 'and the other message')
    del bl[:]
    h.check(h.eq(one.to_dict(), {'message': 'M', 'body': {'One': want + [{'V': 7}], 'Two': [{'W': 1}]}}), 'and keeps its blocks when the list changes')
    h.check(h.eq(two.to_dict(), {'message': 'N', 'body': w}), 'as does the other')


def acks():
    m = Message('M')
    want = []
    for k in range(h.choice('n', [0, 1, 2, 3])):
        a = h.int('ack', 0, 0xffffffff)
        m.add_ack(a)
        want.append(a)
    h.check(h.eq(m.acks, want), 'acks are kept in order')
    h.check(m.num_acks == len(want), 'and counted')


def builder(n):
    """the LLSD builder"""
    blocks = plan(n, n < 3)
    b = LLSDMessageBuilder()
    before = h.choice('before', [False, True])
    if before:
        b.new_message('Old')
        b.next_block('One')
        b.add_data('Left', 3, None)
        b.build_message()
    b.new_message('Thing')
    for name, d in blocks:
        b.next_block(name)
        h.check(not b.is_built(), 'a message that grows is not built')
        for v in sorted(d):
            b.add_data(v, d[v], None)
    got, size = b.build_message()
    h.check(h.eq(got, expected(blocks)), 'the built message holds every block and value')
    h.check(size == len(expected(blocks)), 'and its size is the number of block names')
    h.check(b.is_built(), 'it is built')


def shown(kind, n):
    """any message can be shown"""
    if kind == 'built':
        m = Message('M', Block('One', V=value(0)))
    else:
        t = {'fixed': MsgType.MVT_FIXED, 'variable': MsgType.MVT_VARIABLE, 'other': -1, 'none': None}[kind]
        v = h.bytes('v', n) if h.choice('text', ['bytes', 'unicode']) == 'bytes' else h.unicode('u', n)
        if kind == 'fixed':
            h.assume(h.typename(v) == 'str')
        b = Block('One')
        b.add_variable(Variable('V', v, t))
        m = Message('M', b)
    way = h.choice('way', ['data', 'repr', 'percent', 'log'])
    if way == 'data':
        s = m.data()
    elif way == 'repr':
        s = repr(m)
    elif way == 'percent':
        s = '%s' % (m,)
    else:
        Helpers.log_packet(m, None)
        s = ''
    h.check(h.typename(s) == 'str', 'a message can be shown')


def displays():
    """a variable is shown as its text, in every way"""
    v = h.bytes('v', 3)
    t = h.choice('type', [MsgType.MVT_VARIABLE, None])
    x = Variable('V', v, t)
    h.check(h.eq(str(x), v) and h.eq(repr(x), v) and h.eq(x.get_data_as_string(), v), 'a text is shown as it is')
    u = h.unicode('u', 2)
    y = Variable('U', u, t)
    h.check(h.eq(str(y), u.encode('utf-8')) and h.eq(repr(y), u.encode('utf-8')), 'characters are shown in UTF-8')
    n = h.choice('n', [0, -1, 255, 4294967295, 2.5, True])
    h.check(h.eq(str(Variable('N', n)), str(n)) and h.eq(repr(Variable('N', n)), str(n)), 'a number as its digits')
    m = Message('M', Block('One', V=v))
    h.check(Helpers.null_packet_handler(m, None) is None, 'a packet can be watched with the empty handler')
    Helpers.log_event_queue_data(m, None)
    h.check(h.eq(m.to_dict(), {'message': 'M', 'body': {'One': [{'V': v}]}}), 'and logging it changes nothing')


def type_names():
    for n in [x for x in dir(MsgType) if x.startswith('MVT_') and isinstance(getattr(MsgType, x), int)]:
        h.check(Variable('V', 1, getattr(MsgType, n)).get_var_type_as_string() == n, 'the type of a variable can be named')


def shown_types():
    v = h.choice('value', [UUID(), Vector3(X=1.0), Quaternion(W=1.0), True, None, 3, 2.5, (1, 2), {'a': 1}])
    m = Message('M', Block('One', V=v), Block('One', V=v))
    h.check(m.data().count('Block Name') >= 1, 'a message is shown with its blocks')
    h.check(repr(m) == m.data(), 'in the same way')
    h.check('One' in m.data() and 'M' in m.data() and 'V' in m.data(), 'with its names')


def many(n):
    """many repeats and values"""
    v = h.int('v', 0, 0xffff0000)
    blocks = [(('One', 'Two')[k * k % 3 == 1], dict([('V%d' % j, v + 10 * k + j) for j in range(3)])) for k in range(n)]
    blocks.append(('Wide', dict([('V%d' % j, v + j) for j in range(n)])))
    m, made = build('Thing', blocks)
    want = expected(blocks)
    same(m, 'Thing', want, made)
    h.check(h.eq(m.to_dict(), {'message': 'Thing', 'body': want}), 'the dict holds every repeat and value, however many')
    b = LLSDMessageBuilder()
    b.new_message('Thing')
    for name, d in blocks:
        b.next_block(name)
        for x in sorted(d):
            b.add_data(x, d[x], None)
    h.check(h.eq(b.build_message()[0], want), 'and so does the built message')
    a = h.int('ack', 0, 0xffff0000)
    for k in range(300):
        m.add_ack(a + k)
    h.check(h.eq(m.acks, [a + k for k in range(300)]) and m.num_acks == 300, 'acks are kept and counted, however many')


def cases(tier):
    out = []
    for n in (0, 1, 2):
        out.append(('%d rich blocks' % n, built, (n, True)))
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        out.append(('%d blocks' % n, built, (n, False)))
    for n in (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4):
        out.append(('builder, %d blocks' % n, builder, (n,)))
    out += [('%d blocks' % n, many, (n,)) for n in (40,)] + [('list of %d' % n, lists, (n,)) for n in (0, 1, 2, 3, 300)]
    out += [('two messages', two), ('shared block', shared), ('acks', acks), ('values as they are', kept), ('shown, built', shown, ('built', 0)), ('shown types', shown_types), ('displays', displays), ('type names', type_names)]
    for k in ('fixed', 'variable', 'other', 'none'):
        for n in (0, 1, 2, 3) if tier == 'quick' else (0, 1, 2, 3, 4, 5):
            if n or k != 'fixed':
                out.append(('shown, %s of %d' % (k, n), shown, (k, n)))
    return out
