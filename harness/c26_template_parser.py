"""C26: a message template file gives exactly the messages, blocks and fields it declares."""
import h
import struct
from pyogp.lib.base.exc import MessageTemplateParsingError, MessageTemplateNotFound
from pyogp.lib.base.message.msgtypes import MsgFrequency, MsgTrust, MsgEncoding, MsgDeprecation, MsgBlockType, MsgType
from pyogp.lib.base.message.template_parser import MessageTemplateParser, get_all_types
from pyogp.lib.base.message.template_dict import TemplateDictionary

INFO = dict(
    bounds='message headers with every frequency, trust, encoding and deprecation word, arbitrary numbers (decimal or hexadecimal) and names of up to '
           '3 arbitrary word characters; every block kind with arbitrary counts of up to 3 digits; every field type with arbitrary sizes of up to 3 digits; '
           'files of up to 2 messages with up to 2 blocks of up to 2 fields in four layouts; comments of up to 4 (quick) or 6 (thorough) arbitrary bytes at every place a '
           'comment can stand; words separated by arbitrary blanks and tabs; parsed once and twice',
    outside='unknown words in place of a frequency, trust, encoding, kind or type; numbers beyond their frequency; two declarations of one name',
    stubs='template files are kept in memory',
)
FREQ = {'Low': MsgFrequency.LOW_FREQUENCY_MESSAGE, 'Medium': MsgFrequency.MEDIUM_FREQUENCY_MESSAGE,
        'High': MsgFrequency.HIGH_FREQUENCY_MESSAGE, 'Fixed': MsgFrequency.FIXED_FREQUENCY_MESSAGE}
TRUST = {'Trusted': MsgTrust.LL_TRUSTED, 'NotTrusted': MsgTrust.LL_NOTRUST}
CODE = {'Unencoded': MsgEncoding.LL_UNENCODED, 'Zerocoded': MsgEncoding.LL_ZEROCODED}
DEP = {None: MsgDeprecation.LL_NOTDEPRECATED, 'Deprecated': MsgDeprecation.LL_DEPRECATED, 'UDPDeprecated': MsgDeprecation.LL_UDPDEPRECATED,
       'UDPBlackListed': MsgDeprecation.LL_UDPBLACKLISTED, 'NotDeprecated': MsgDeprecation.LL_NOTDEPRECATED}
KIND = {'Single': MsgBlockType.MBT_SINGLE, 'Multiple': MsgBlockType.MBT_MULTIPLE, 'Variable': MsgBlockType.MBT_VARIABLE}
TYPES = {'U8': (MsgType.MVT_U8, 1), 'U16': (MsgType.MVT_U16, 2), 'U32': (MsgType.MVT_U32, 4), 'U64': (MsgType.MVT_U64, 8),
         'S8': (MsgType.MVT_S8, 1), 'S16': (MsgType.MVT_S16, 2), 'S32': (MsgType.MVT_S32, 4), 'S64': (MsgType.MVT_S64, 8),
         'F32': (MsgType.MVT_F32, 4), 'F64': (MsgType.MVT_F64, 8), 'LLVector3': (MsgType.MVT_LLVector3, 12),
         'LLVector3d': (MsgType.MVT_LLVector3d, 24), 'LLVector4': (MsgType.MVT_LLVector4, 16),
         'LLQuaternion': (MsgType.MVT_LLQuaternion, 12), 'LLUUID': (MsgType.MVT_LLUUID, 16), 'BOOL': (MsgType.MVT_BOOL, 1),
         'IPADDR': (MsgType.MVT_IP_ADDR, 4), 'IPPORT': (MsgType.MVT_IP_PORT, 2), 'Fixed': (MsgType.MVT_FIXED, None),
         'Variable': (MsgType.MVT_VARIABLE, None)}
SHOWN = {'Fixed': 'MVT_FIXED', 'Variable': 'MVT_VARIABLE', 'IPADDR': 'MVT_IP_ADDR', 'IPPORT': 'MVT_IP_PORT'}
HEAD = '// a template\nversion 2.0\n\n'


def word(name, n):
    s = h.bytes(name, n)
    for c in s:
        h.assume(h.or_(h.and_(c >= '0', c <= '9'), h.and_(c >= 'A', c <= 'Z'), h.and_(c >= 'a', c <= 'z'), c == '_'))
    return s


def gap(name, n=1):
    s = h.bytes(name, n)
    for c in s:
        h.assume(h.or_(c == ' ', c == '\t'))
    return s


def digits(name, n):
    """(text, value) of a decimal number without leading zeros"""
    s = h.bytes(name, n)
    v = 0
    for k in range(n):
        h.assume(h.and_(s[k] >= ('1' if k == 0 and n > 1 else '0'), s[k] <= '9'))
        v = v * 10 + (ord(s[k]) - 48)
    return s, v


def hexa(name, n):
    s = h.bytes(name, n)
    v = 0
    for c in s:
        h.assume(h.or_(h.and_(c >= '0', c <= '9'), h.and_(c >= 'A', c <= 'F'), h.and_(c >= 'a', c <= 'f')))
        v = v * 16 + h.ite(c <= '9', ord(c) - 48, h.ite(c >= 'a', ord(c) - 87, ord(c) - 55))
    return s, v


def number(f, style):
    """(text, value, id bytes)"""
    if f == 'Fixed':
        s, v = hexa('num', 2)
        return '0xFFFFFF' + s, v, '\xff\xff\xff' + chr(v)
    top = {'Low': 65535, 'Medium': 255, 'High': 255}[f]
    if style == 'hex':
        s, v = hexa('num', 2 if f != 'Low' else 4)
        s = '0x' + s
    else:
        s, v = digits('num', style)
        h.assume(v <= top)
    if f == 'Low':
        return s, v, '\xff\xff' + chr(v >> 8) + chr(v & 255)
    return s, v, ('\xff' if f == 'Medium' else '') + chr(v)


def parse(text):
    return MessageTemplateParser(h.templfile(text))


def same_id(got, want):
    h.check(len(got) == len(want), 'a message id has its length')
    h.check(h.eq(got, want), 'and its bytes')


def header(f, style, n, full):
    """the header of a message"""
    name = word('name', n)
    num, v, ids = number(f, style)
    d = h.choice('deprecation', [None, 'Deprecated', 'UDPDeprecated', 'UDPBlackListed', 'NotDeprecated'])
    k = ['Deprecated', 'UDPDeprecated', 'UDPBlackListed', 'NotDeprecated', None].index(d)
    if full or style == 1 or style is None:
        t = h.choice('trust', sorted(TRUST))
        e = h.choice('code', sorted(CODE))
        k += sorted(TRUST).index(t) + 2 * sorted(CODE).index(e)
    else:
        t = sorted(TRUST)[k % 2]
        e = sorted(CODE)[k // 2 % 2]
    line = gap('g', h.choice('indent', [0, 2]) if full else k % 3) + name + gap('g') + f + gap('g', 2) + num + gap('g') + t + gap('g') + e
    if d is not None:
        line = line + gap('g') + d
    ends = ['', ' ', ' // a comment', '\r']
    line = line + (h.choice('end', ends) if full else ends[k % 4])
    p = parse(HEAD + '{\n' + line + '\n}\n')
    h.check(len(p.message_templates) == 1, 'each message is declared once')
    m = p.message_templates[0]
    h.check(h.eq(m.name, name) and h.eq(m.get_name(), name), 'with its name')
    h.check(m.frequency == FREQ[f] and m.get_frequency() == FREQ[f], 'frequency')
    h.check(m.get_frequency_as_string() == f.lower(), 'which can be shown')
    h.check(m.msg_num == v and m.get_message_number() == v, 'number')
    h.check(m.msg_trust == TRUST[t] and m.get_message_trust() == TRUST[t] and m.get_message_trust_as_string() == t, 'trust')
    h.check(m.msg_encoding == CODE[e] and m.get_message_encoding() == CODE[e] and m.get_message_encoding_as_string() == e, 'encoding')
    h.check(m.msg_deprecation == DEP[d] and m.get_deprecation() == DEP[d] and m.get_deprecation_as_string() == (d or 'NotDeprecated'), 'and deprecation')
    h.check(m.get_blocks() == [], 'and no blocks if it declares none')
    same_id(m.msg_num_hex, ids)
    td = TemplateDictionary(p.message_templates)
    same_id(m.msg_num_hex, ids)
    h.check(td.get_template(name) is m and td[name] is m, 'the dictionary finds it by name')
    h.check(td.get_template_by_pair(f, v) is m, 'by frequency and number')
    if style == 5:
        return
    o = h.int('other', 0, 65535)
    h.check((td.get_template_by_pair(f, o) is m) == h.flag(o == v), 'and under no other number')
    for g in sorted(FREQ):
        if g != f:
            h.check(td.get_template_by_pair(g, v) is None, 'nor frequency')
    w = word('unknown', n)
    h.check((td.get_template(w) is m) == h.flag(w == name), 'nor name')
    x = ''
    for c in ids:
        x = x + '%02X' % ord(c)
    h.check(h.eq(m.get_message_hex_num(), x), 'its id can be shown')


def block(n, kind, k):
    """the header of a block"""
    name = word('name', n)
    line = gap('g', 2) + name + gap('g') + kind
    want = 0
    if kind == 'Multiple':
        s, want = digits('count', k)
        line = line + gap('g') + s
    line = line + h.choice('end', ['', ' ', ' // 7 times', '\r'])
    p = parse(HEAD + '{\nM Low 1 NotTrusted Unencoded\n{\n' + line + '\n{ A U8 }\n}\n}\n')
    m = p.message_templates[0]
    h.check(len(m.blocks) == 1 and m.get_blocks() == m.blocks, 'a message has the blocks it declares')
    b = m.blocks[0]
    h.check(h.eq(b.name, name) and h.eq(b.get_name(), name), 'with their names')
    h.check(m.get_block(name) is b, 'they are found by name')
    h.check(b.block_type == KIND[kind] and b.get_block_type() == KIND[kind] and b.get_block_type_as_string() == kind, 'kinds')
    h.check(b.number == want and b.get_block_number() == want, 'and counts')
    h.check([v.name for v in b.variables] == ['A'], 'and their fields')


def field(n, tp, k):
    """a field"""
    name = word('name', n)
    line = '{' + gap('g', h.choice('indent', [0, 1])) + name + gap('g') + tp
    if k:
        s, size = digits('size', k)
        line = line + gap('g') + s
    else:
        size = TYPES[tp][1]
    line = line + h.choice('end', [' }', '}', ' } // 5 of them', '\t}\r'])
    try:
        p = parse(HEAD + '{\nM Low 1 NotTrusted Unencoded\n{\nB Single\n' + line + '\n}\n}\n')
    except MessageTemplateParsingError:
        h.check(k > 0 and h.flag(size == 0), 'only sizes of zero are refused')
        return
    h.check(size != 0, 'a size of zero is refused')
    b = p.message_templates[0].blocks[0]
    h.check(len(b.variables) == 1 and b.get_variables() == b.variables, 'a block has the fields it declares')
    v = b.variables[0]
    h.check(h.eq(v.name, name) and h.eq(v.get_name(), name), 'with their names')
    h.check(b.get_variable(name) is v, 'they are found by name')
    h.check(v.type == TYPES[tp][0] and v.get_type() == TYPES[tp][0], 'types')
    h.check(v.get_type_as_string() == SHOWN.get(tp, 'MVT_' + tp), 'which can be shown')
    h.check(get_all_types(p.message_templates) == [SHOWN.get(tp, 'MVT_' + tp)], 'also for the whole template')
    h.check(v.size == size, 'and sizes')


def dictionaries():
    """dictionaries of different files do not mix"""
    names = [word('name', 2) for k in range(3)]
    fs = [h.templfile(HEAD + '{\n%s Low %s NotTrusted Unencoded\n{\nB Single\n{ F%d U8 }\n}\n}\n' % (x, n, k)) for k, (x, n) in enumerate(zip(names, ('7', '7', '8')))]
    order = [h.choice('file', [0, 1, 2]) for k in range(3)]
    made = []
    for k in order:
        made.append(TemplateDictionary(None, fs[k]) if h.choice('how', ['file', 'parsed']) == 'file' else TemplateDictionary(parse_file(fs[k])))
    for k, td in zip(order, made):
        h.check(h.eq(td.get_template_list(), [names[k]]), 'each dictionary holds the messages of its own file')
        t = td.get_template(names[k])
        h.check(t is not None and t.blocks[0].variables[0].name == 'F%d' % k, 'as that declares them')
        h.check(td.get_template_by_pair('Low', 7 if k < 2 else 8) is t and td.get_template_by_pair('Low', 8 if k < 2 else 7) is None, 'under its own numbers')
    full = TemplateDictionary()
    h.check(full.get_template('StartPingCheck') is not None and full.get_template('PacketAck') is not None, 'and without a file the embedded ones')


def parse_file(f):
    return MessageTemplateParser(f).message_templates


def refused(line, what):
    """a declaration without its number"""
    lines = ['{', 'M Low 1 NotTrusted Unencoded', '{', 'B Single', '{ A U8 }', '}', '}']
    lines[3 if what == 'block' else 4] = line
    try:
        parse(HEAD + '\n'.join(lines))
        ok = True
    except MessageTemplateParsingError, e:
        ok = False
        str(e)
    h.check(not ok, 'a declaration without its number is refused')


def nofile():
    try:
        MessageTemplateParser(None)
        ok = True
    except MessageTemplateNotFound:
        ok = False
    h.check(not ok, 'no file is an error of its own')


def layout(kind, msgs):
    """template text; msgs: [(name, freq, num, [(block, kind, count, [(field, type, size)])])]"""
    out = HEAD
    nl = {'tight': '\n', 'loose': '\n\n', 'dos': '\r\n', 'commented': ' // a comment here now\n// { whole line } Low 9 Trusted Zerocoded\n\t// x y\n'}[kind]
    for name, f, num, blocks in msgs:
        out = out + '{' + nl + '\t' + name + ' ' + f + ' ' + num + ' Trusted Zerocoded' + nl
        for bn, bk, bc, fields in blocks:
            out = out + '\t{' + nl + '\t\t' + bn + ' ' + bk + (' %d' % bc if bc else '') + nl
            for fn, tp, size in fields:
                out = out + '\t\t{ ' + fn + ' ' + tp + (' %d' % size if size else '') + ' }' + nl
            out = out + '\t}' + nl
        out = out + '}' + nl
    return out


def shape(nb, nf):
    return h.choice('shape', [(a, b) for a in range(nb + 1) for b in range(1, nf + 1)])


def compare(ts, msgs):
    h.check(len(ts) == len(msgs), 'a file declares its messages')
    for t, (name, f, num, blocks) in zip(ts, msgs):
        h.check(h.eq(t.name, name) and t.frequency == FREQ[f] and t.msg_num == int(num), 'in order')
        h.check(len(t.blocks) == len(blocks), 'with their blocks')
        for b, (bn, bk, bc, fields) in zip(t.blocks, blocks):
            h.check(h.eq(b.name, bn) and b.block_type == KIND[bk] and b.number == bc, 'in order')
            h.check(len(b.variables) == len(fields), 'with their fields')
            for v, (fn, tp, size) in zip(b.variables, fields):
                h.check(h.eq(v.name, fn) and v.type == TYPES[tp][0] and v.size == (size or TYPES[tp][1]), 'in order')


def whole(kind):
    """files with several messages"""
    msgs = []
    for k in range(2):
        nb, nf = shape(2, 2)
        blocks = []
        for j in range(nb):
            bn = word('block', 2)
            bk = h.choice('kind', ['Single', 'Multiple', 'Variable']) if k == 1 and j == 0 else ['Variable', 'Multiple'][j]
            for o in blocks:
                h.assume(o[0] != bn)
            fields = []
            for i in range(nf):
                fn = word('field', 2)
                for o in fields:
                    h.assume(o[0] != fn)
                fields.append((fn,) + [('U32', 0), ('Variable', 2), ('LLUUID', 0), ('Fixed', 32)][(i + 2 * j + k) % 4])
            blocks.append((bn, bk, 3 if bk == 'Multiple' else 0, fields))
        msgs.append((word('name', 2), ['Low', 'Medium', 'High'][k], str(7 + k), blocks))
    h.assume(msgs[0][0] != msgs[1][0])
    f = h.templfile(layout(kind, msgs))
    p = MessageTemplateParser(f)
    h.check(p.count == 2, 'messages are counted')
    h.check(p.version == 2.0, 'the version is read')
    compare(p.message_templates, msgs)
    q = MessageTemplateParser(f)
    h.check(len(p.message_templates) == 2, 'reading the file again leaves the first result alone')
    compare(q.message_templates, msgs)
    td = TemplateDictionary(None, f)
    for k in range(2):
        t = td.get_template(msgs[k][0])
        h.check(t is not None, 'the dictionary of a file holds its messages')
        compare([t], [msgs[k]])
        h.check(td.get_template_by_pair(['Low', 'Medium'][k], 7 + k) is t, 'under their numbers')
    h.check(h.eq(td.get_template_list(), [m[0] for m in msgs]), 'and can list them')


def comment(place, n, mark):
    """comments may hold anything"""
    c = h.bytes('c', n)
    for x in c:
        h.assume(x != '\n')
    msgs = [('M', 'Low', '7', [('B', 'Single', 0, [('F', 'U32', 0), ('G', 'Variable', 2)]), ('C', 'Multiple', 3, [('H', 'U8', 0)])]),
            ('N', 'High', '8', [])]
    lines = layout('tight', msgs).split('\n')
    if mark == 'line':
        lines.insert(place, h.choice('before', ['', ' ', '\t\t']) + '//' + c)
    else:
        lines[place] = lines[place] + h.choice('before', [' ', '', '\t'] if lines[place][-1:] in ('{', '}', '') else [' ', '\t']) + '//' + c
    p = parse('\n'.join(lines))
    compare(p.message_templates, msgs)
    h.check(p.version == 2.0, 'the version is read')


def cases(tier):
    quick = tier == 'quick'
    out = [('no file', nofile), ('dictionaries', dictionaries)]
    for f in sorted(FREQ):
        styles = [None] if f == 'Fixed' else ['hex', 1, 3] if f != 'Low' else ['hex', 1, 2, 5]
        for st in styles:
            out.append(('header %s %s' % (f, st), header, (f, st, 2 if quick else 3, not quick)))
    for k in sorted(KIND):
        for c in ((1, 2, 3) if k == 'Multiple' else (0,)):
            out.append(('block %s %d' % (k, c), block, (2 if quick else 3, k, c)))
    for t in sorted(TYPES):
        for k in ((1, 2, 3) if t in ('Fixed', 'Variable') else (0,)):
            out.append(('field %s %d' % (t, k), field, (2 if quick else 3, t, k)))
    for t in ('{ A Fixed }', '{ A Variable }', '{ A Variable } // 5', '{ A Fixed -3 }'):
        out.append(('refused ' + t, refused, (t, 'field')))
    for t in ('B Multiple', 'B Multiple // 4'):
        out.append(('refused ' + t, refused, (t, 'block')))
    for k in ('tight', 'loose', 'dos', 'commented'):
        out.append(('file, ' + k, whole, (k,)))
    n = len(layout('tight', [('M', 'Low', '7', [('B', 'Single', 0, [('F', 'U32', 0), ('G', 'Variable', 2)]), ('C', 'Multiple', 3, [('H', 'U8', 0)])]),
                             ('N', 'High', '8', [])]).split('\n'))
    for p in range(n):
        for m in ('line', 'end'):
            if m == 'end' and p == n - 1:
                continue
            out.append(('comment %s %d' % (m, p), comment, (p, 3 if quick else 5, m)))
    return out
