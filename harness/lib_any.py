"""Traffic with any message of the embedded template and any flags. Shared by several harnesses."""
import h
import lib_ref
import lib_net
from pyogp.lib.base.message.udpdispatcher import UDPDispatcher
from pyogp.lib.base.message.message_handler import MessageHandler
from pyogp.lib.base.message.message_dot_xml import MessageDotXML
from pyogp.lib.base.message.circuit import CircuitManager
from pyogp.lib.base.message.message import Message, Block
from pyogp.lib.base.datatypes import UUID, Vector3, Quaternion
from pyogp.lib.base.settings import Settings

S = {}
# messages the library's own code treats or knows by name, always with every choice
NAMED = ('PacketAck', 'CloseCircuit', 'OpenCircuit', 'UseCircuitCode', 'StartPingCheck', 'CompletePingCheck', 'LogoutRequest', 'CompleteAgentMovement',
         'RegionHandshake', 'RegionHandshakeReply', 'AgentUpdate', 'KickUser', 'DisableSimulator', 'EnableSimulator', 'ImprovedTerseObjectUpdate', 'TestMessage')


class Picker(object):
    """choices about one message: all of them in the thorough tier and for the messages known by name, otherwise spread over the template"""
    def __init__(self, entry, tier):
        self.full = tier != 'quick' or entry[0] in NAMED
        self.k = [e[0] for e in lib_ref.ENTRIES].index(entry[0])

    def choice(self, name, values):
        if self.full:
            return h.choice(name, values)
        v = values[self.k % len(values)]
        self.k //= len(values)
        return v


def setup(n=1):
    """n dispatchers over the embedded template"""
    x = MessageDotXML()
    S['allowed'] = dict([(e[0], x.validate_udp_msg(e[0])) for e in lib_ref.ENTRIES])
    S['made'] = []
    for k in range(n):
        st = Settings(quiet_logging=True)
        c = lib_net.Client()
        S['made'].append((UDPDispatcher(c, st, MessageHandler(st), message_xml=x), c))


def dispatcher(k=0, deferred=True, settings=None):
    """one of them, as new"""
    d, c = S['made'][k]
    c.sent = []
    d.circuit_manager = CircuitManager()
    d.packets_in = d.packets_out = 0
    d.message_handler.__init__(d.settings)
    d.settings.ENABLE_DEFERRED_PACKET_PARSING = deferred
    return d, c


def body(entry, count=1):
    """concrete contents without a zero wherever the format allows it"""
    b = lib_ref.id_bytes(entry[1], entry[2]) + lib_ref.body(entry, count, 2, lambda n: '\x01' * n)
    if entry[0] == 'RegionHandshakeReply':
        b += '\0\0\0\0'
    return b


VALUES = {'F32': 1.5, 'F64': 1.5, 'LLVector3d': (1.0, 2.0, 3.0), 'LLVector4': (1.0, 2.0, 3.0, 4.0), 'IPADDR': '\x01\x02\x03\x04', 'Variable': 'xy',
          'LLVector3': Vector3(X=1.0, Y=2.0, Z=3.0), 'LLQuaternion': Quaternion(X=0.5, Y=0.5, Z=0.5, W=0.5), 'LLUUID': UUID(bytes='0123456789abcdef')}


def value(tp, size):
    return 'x' * size if tp == 'Fixed' else VALUES.get(tp, 1)


def message(entry, count=1):
    """one to send, with concrete values"""
    m = Message(entry[0])
    for bname, kind, rep, fields in entry[3]:
        for r in range(count if kind == 'Variable' else rep):
            m.add_block(Block(bname, **dict([(f[0], value(f[1], f[2])) for f in fields])))
    return m


class Packet(object):
    """a received packet: any id, any flags, plain or zero-coded, with or without an appended ack"""
    def __init__(self, pick, entry, acks=None, low=0, high=0xffffffff):
        self.pid = h.int('pid', low, high)
        fl = h.int('flags', 0, 0x6f)
        h.assume((fl & 0x10) == 0)
        self.reliable = h.flag((fl & 0x40) != 0)
        b = body(entry)
        if pick.choice('coded', [False, True]):
            fl = fl | 0x80
            b = lib_ref.encode(b)
        self.acks = []
        if acks is not None:
            self.acks = pick.choice('acks', [[], [h.int('ack', acks[0], acks[1])]])
        if self.acks:
            fl = fl | 0x10
            b += lib_ref.be(self.acks[0], 4) + '\x01'
        self.flags = fl
        self.wire = chr(fl) + lib_ref.be(self.pid, 4) + '\0' + b
