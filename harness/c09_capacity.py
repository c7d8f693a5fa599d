"""C09: a message that does not fit the wire format is refused, one that just fits is sent unharmed."""
import h
import lib_ref
import lib_net
from pyogp.lib.base import exc
from pyogp.lib.base.datatypes import UUID
from pyogp.lib.base.message.udpserializer import UDPMessageSerializer
from pyogp.lib.base.message.udpdeserializer import UDPMessageDeserializer
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.message.circuit import Host
from pyogp.lib.base.settings import Settings

INFO = dict(
    bounds='variable fields with one- and two-byte lengths around 255, 256, 65535 and 65536 bytes; 0, 1, 254 to 257, 511 and 512 repeats of a '
           'variable block; 0 to 4 blocks where the template fixes the number, 0 to 2 where it wants one; fixed fields and addresses of every length from 0 to two '
           'bytes too many; the contents are partly arbitrary bytes',
    outside='four-byte lengths',
    stubs='struct and uuid are engine models of the Jython library',
)

S = {}
TMPL = '''version 2.0
{
	One Low 200 NotTrusted Unencoded
	{
		Part Single
		{ Before U8 }
		{ Text Variable 1 }
		{ Data Variable 1 }
		{ After U8 }
	}
}
{
	Two Low 201 NotTrusted Unencoded
	{
		Part Single
		{ Text Variable 2 }
		{ Data Variable 2 }
		{ After U8 }
	}
}
{
	Many Low 202 NotTrusted Unencoded
	{
		Part Variable
		{ Value U8 }
	}
	{
		Tail Single
		{ Value U8 }
	}
}
{
	Exact Low 203 NotTrusted Unencoded
	{
		Part Multiple 3
		{ Value U8 }
	}
}
{
	Alone Low 205 NotTrusted Unencoded
	{
		First Single
		{ Value U8 }
	}
	{
		Part Single
		{ Value U8 }
	}
	{
		Tail Variable
		{ Value U8 }
	}
}
{
	Sized Low 204 NotTrusted Unencoded
	{
		Part Single
		{ Value Fixed 5 }
		{ Addr IPADDR }
		{ After U8 }
	}
}
'''


def setup():
    st = Settings(quiet_logging=True)
    st.ENABLE_DEFERRED_PACKET_PARSING = False
    S['x'] = MessageDotXML()
    S['ser'] = UDPMessageSerializer(message_template=h.templfile(TMPL), message_xml=S['x'])
    S['des'] = UDPMessageDeserializer(lib_ref.AllHandled(), st, message_template=h.templfile(TMPL), message_xml=S['x'])


def attempt(m):
    try:
        return S['ser'].serialize(m)
    except exc.MessageSerializationError, e:
        h.check(len(str(e)) > 0, 'the refusal can be reported')
        return None


def length(name, field, limit, n):
    mid = h.bytes('mid', 2)
    h.assume(mid[1] != '\0')
    v = mid
    if n > 2:
        v = 'a' * (n - 2) + mid
    if n < 2:
        v = 'b' * n
    kw = dict(Text='t', Data='d', After=9, Before=8)
    kw[field] = v
    if name == 'Two':
        del kw['Before']
    buf = attempt(Message(name, Block('Part', **kw)))
    used = n
    if field == 'Text':
        used += 1
    h.check((buf is not None) == (used <= limit), 'refused exactly when its length field cannot hold it')
    if buf is not None:
        m = S['des'].deserialize(buf)
        h.check(m is not None, 'what fits is decoded')
        h.check(h.and_(h.eq(m['Part'][0][field], v), m['Part'][0]['After'] == 9), 'unharmed')


def repeats(n):
    v = h.int('v', 0, 255)
    parts = [Block('Part', Value=v if k == n - 1 else k & 255) for k in range(n)]
    how = h.choice('how', ['one by one', 'in a list', 'as arguments'])
    if how == 'one by one':
        m = Message('Many', Block('Tail', Value=4))
        for p in parts:
            m.add_block(p)
    else:
        m = Message('Many', Block('Tail', Value=4), parts) if how == 'in a list' else Message('Many', Block('Tail', Value=4), *parts)
    buf = attempt(m)
    h.check((buf is not None) == (n <= 255), 'refused exactly when the block count cannot be written')
    if buf is not None and n:
        d = S['des'].deserialize(buf)
        h.check(d is not None and len(d['Part']) == n, 'all blocks arrive')
        h.check(h.and_(d['Part'][n - 1]['Value'] == v, d['Tail'][0]['Value'] == 4), 'with their values')


def exact(n):
    v = h.bytes('v', n)
    m = Message('Exact')
    for k in range(n):
        m.add_block(Block('Part', Value=ord(v[k])))
    buf = attempt(m)
    h.check((buf is not None) == (n == 3), 'refused unless the template\'s number of blocks is given')
    if buf is not None:
        h.check(h.eq(buf[-3:], v), 'the blocks follow each other without a count')


def alone(a, b):
    """blocks of which there is exactly one"""
    v = h.bytes('v', a + b)
    m = Message('Alone', [Block('Part', Value=ord(c)) for c in v[:b]])
    for c in v[b:]:
        m.add_block(Block('First', Value=ord(c)))
    more = h.choice('more', [0, 2])
    for k in range(more):
        m.add_block(Block('Tail', Value=k))
    buf = attempt(m)
    h.check((buf is not None) == (a == 1 and b == 1), 'refused unless a single block is given once')
    if buf is not None:
        h.check(h.eq(buf[10:], v[1] + v[0] + chr(more) + '\0\x01'[:more]), 'single blocks follow each other without a count')


def sized(n, a):
    v, ad = h.bytes('v', n), h.bytes('addr', a)
    buf = attempt(Message('Sized', Block('Part', Value=v, Addr=ad, After=7)))
    h.check((buf is not None) == (n == 5 and a == 4), 'refused unless the field has the template\'s size')
    if buf is not None:
        h.check(h.eq(buf[10:], v + ad + '\x07'), 'exact fields are written raw')


def dispatched():
    """a refused message does not reach the network, the next one does"""
    d, c = lib_net.dispatcher()
    host = Host(('10.0.0.1', 5))
    rel = h.choice('reliable', [False, True])
    m = Message('Blob', Block('Part', Data='x' * 65536))
    if rel:
        r = d.send_reliable(m, host, 0)
    else:
        r = d.send_message(m, host)
    h.check(r is None and c.sent == [], 'a refused message is not sent')
    d.send_message(Message('Blob', Block('Part', Data='x' * 65535)), host)
    h.check(len(c.sent) == 1 and len(c.sent[0][0]) == 10 + 1 + 2 + 65535, 'the next message is')


def unknown(known):
    """a message the template does not have, after one it has with the same blocks"""
    st = Settings(quiet_logging=True)
    d, c = lib_net.dispatcher(st)
    host = Host(('10.0.0.1', 5))
    v = h.int('v', 0, 255)
    if known:
        d.send_message(Message(known, Block('PingID', PingID=7, OldestUnacked=0)), host)
    n = len(c.sent)
    name = h.choice('name', ['Unheard', known + ' ', known.lower(), known + 'X', ''])
    how = h.choice('how', ['message', 'reliable'])
    m = Message(name, Block('PingID', PingID=v, OldestUnacked=0))
    r = d.send_message(m, host) if how == 'message' else d.send_reliable(m, host, 1)
    h.check(r is None and len(c.sent) == n, 'a message the template does not have is never sent as another one')
    d.send_message(Message('CompletePingCheck', Block('PingID', PingID=v)), host)
    h.check(len(c.sent) == n + 1 and h.flag(h.eq(c.sent[-1][0][5:], '\0\x02' + chr(v))), 'the next one is sent as itself')


def cases(tier):
    out = []
    for known in ('', 'StartPingCheck', 'CompletePingCheck'):
        out.append(('unknown after %s' % known, unknown, (known,)))
    for n in (0, 1, 254, 255, 256, 257, 511, 512):
        out.append(('One.Text %d' % n, length, ('One', 'Text', 255, n)))
        out.append(('One.Data %d' % n, length, ('One', 'Data', 255, n)))
        out.append(('%d repeats' % n, repeats, (n,)))
    for n in (65533, 65534, 65535, 65536, 65537):
        out.append(('Two.Text %d' % n, length, ('Two', 'Text', 65535, n)))
        out.append(('Two.Data %d' % n, length, ('Two', 'Data', 65535, n)))
    for n in range(5):
        out.append(('%d of 3 blocks' % n, exact, (n,)))
    for n in range(9):
        out.append(('%d and %d single blocks' % (n // 3, n % 3), alone, (n // 3, n % 3)))
    for n in range(8):
        out.append(('fixed of %d' % n, sized, (n, 4)))
    for a in range(7):
        out.append(('address of %d' % a, sized, (5, a)))
    out.append(('dispatched', dispatched))
    return out
