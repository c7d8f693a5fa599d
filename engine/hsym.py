"""The harness API, symbolic side (module `h` of the harness files). Jython side: jyh.py."""
import os
import random
import struct
import time

import z3

import rt
import sym
import shims
from rt import U, SymUni, ALLSYM
from sym import SymBool, SymBytes, SymFloat, SymInt, SymText, and_, or_, not_, zb, mk_bool, mk_int, mk_bytes


class StopPath(BaseException):
    pass


class HState(object):
    Stop = StopPath

    def start(self, ctx, tier):
        self.ctx = ctx
        self.tier = tier
        self.inputs = []            # (name, kind, data)
        self.labels = {}
        self.violations = []
        self.observes = []
        self.symlabels = set()
        self.vacuous = 0

    def child(self):
        self.labels = {}
        self.violations = []

    # ---- inputs
    def model_inputs(self, m):
        out = {}
        for name, kind, d in self.inputs:
            out[name] = self.val(kind, d, m)
        return out

    def val(self, kind, d, m):
        ev = lambda e: m.eval(e, model_completion=True)
        if kind == 'int':
            return ['int', str(ev(d.e).as_signed_long() if isinstance(d, SymInt) else d)]
        if kind == 'bool':
            return ['bool', z3.is_true(ev(d))]
        if kind == 'bytes':
            return ['bytes', ''.join('%02x' % ev(b).as_long() for b in d)]
        if kind == 'uni':
            return ['uni', [ev(c.e).as_signed_long() for c in d]]
        if kind in ('f32', 'f64'):
            return [kind, '%x' % ev(d).as_long()]
        if kind == 'choice':
            return ['int', str(d)]
        raise AssertionError(kind)

    def model(self):
        c = self.ctx
        if c.model is None:
            r, m = c._check([], c.rl_check)
            if r != z3.sat:
                return None
            c.model = m
        return c.model

    def uncaught(self, e):
        self.labels['uncaught exception'] = 1
        self.violations.append({'label': 'uncaught ' + type(e).__name__, 'inputs': self.model_inputs(self.model_or_empty()),
                                'detail': safe_str(e)})

    def model_or_empty(self):
        m = self.model()
        if m is None:
            raise sym.Inconclusive('no model')
        return m

    def record(self, status):
        rec = {'labels': self.labels, 'violations': self.violations}
        if status in ('ok', 'unsupported', 'steplimit', 'stopped') :
            m = self.model()
            if m is None:
                rec['nomodel'] = True
                return rec
            rec['inputs'] = self.model_inputs(m)
            if status == 'unsupported':
                rec['more'] = self.diverse(m, 8)
            if status == 'ok':
                rec['observes'] = [[l, canon(v, m)] for l, v in self.observes]
        return rec


    def diverse(self, m, n):
        """further inputs that follow this path: tried in the real code where the engine cannot follow it"""
        out = []
        f = self.ctx.forker
        if f is not None:
            if f.sh.get(5) >= 120 or f.deadline - time.time() < 60:
                return out
            f.sh.add(5)
        try:
            rnd = random.Random(int(os.environ.get('VERIF_SEED', '1')))
        except ValueError:
            rnd = random.Random(1)
        for k in range(n):
            hints = []
            for name, kind, d in self.inputs:
                if kind == 'int' and isinstance(d, SymInt):
                    v = rnd.choice([d.lo, d.hi, max(d.lo, min(d.hi, rnd.choice([0, 1, -1, 255, 256]))), rnd.randint(d.lo, d.hi)])
                    hints.append(d.e == v)
                elif kind == 'bool':
                    hints.append(d == rnd.choice([True, False]))
                elif kind == 'bytes':
                    for b in d:
                        hints.append(b == rnd.choice([0, 1, 32, 65, 127, 128, 255, rnd.randint(0, 255)]))
                elif kind == 'uni':
                    for c in d:
                        if isinstance(c, SymInt):
                            hints.append(c.e == rnd.choice([c.lo, c.hi, 0, 65, 233, 0x20ac, rnd.randint(c.lo, c.hi)]))
                elif kind in ('f32', 'f64'):
                    x = rnd.choice([0.0, 1.0, -1.0, 0.5, 1e-8, -1e-30, 1e20, rnd.uniform(-1, 1), rnd.uniform(-1000, 1000)])
                    raw = struct.pack('>f' if kind == 'f32' else '>d', x)
                    hints.append(d == int.from_bytes(raw, 'big'))
            have, budget = [], 12
            if hints:
                r, mm = self.ctx._check(hints, 2000000)
                if r == z3.sat:
                    have = hints
                else:
                    rnd.shuffle(hints)
                    step = max(1, len(hints) // budget)
                    for i in range(0, len(hints), step):
                        r, _ = self.ctx._check(have + hints[i:i + step], 2000000)
                        if r == z3.sat:
                            have = have + hints[i:i + step]
            r, mm = self.ctx._check(have, 2000000)
            if r == z3.sat:
                x = self.model_inputs(mm)
                if x not in out:
                    out.append(x)
        return out


def safe_str(e):
    try:
        s = rt.str_(e)
        return s[:300] if isinstance(s, str) else '?'
    except BaseException:
        return '?'


def canon(v, m):
    """JSON value of a harness value under model m; must agree with jyh.canon"""
    t = type(v)
    ev = lambda e: m.eval(e, model_completion=True)
    if t is SymBool:
        return bool(z3.is_true(z3.simplify(ev(v.c))))
    if t is SymInt:
        return ['i', str(z3.simplify(ev(v.e)).as_signed_long())]
    if t is SymBytes:
        return ['s', ''.join('%02x' % (b if type(b) is int else z3.simplify(ev(b)).as_long()) for b in v.b)]
    if t is SymUni:
        return ['u', [c if type(c) is int else z3.simplify(ev(c.e)).as_signed_long() for c in v.cp]]
    if t is SymFloat:
        if v.src is not None:
            k, b = v.src
            raw = z3.simplify(ev(b)).as_long()
            x = struct.unpack('>f', raw.to_bytes(4, 'big'))[0] if k == 'f32' else struct.unpack('>d', raw.to_bytes(8, 'big'))[0]
        else:
            b = z3.simplify(ev(z3.fpToIEEEBV(v.e)))
            x = struct.unpack('>d', b.as_long().to_bytes(8, 'big'))[0]
        return canon(x, m)
    if t in (SymText, shims.SymDoc):
        return ['?']
    if v is None or t is bool:
        return v
    if t is int:
        return ['i', str(v)]
    if t is float:
        if v != v:
            return ['f', 'nan']
        return ['f', struct.pack('>d', v).hex()]
    if t is U:
        return ['u', [ord(c) for c in v]]
    if t is str:
        return ['s', ''.join('%02x' % ord(c) for c in v)]
    if isinstance(v, (list, tuple)):
        return ['l', [canon(x, m) for x in v]]
    if isinstance(v, dict):
        return ['d', sorted([[canon(rt.unk(k), m), canon(x, m)] for k, x in dict.items(v)], key=str)]
    return ['o', rt.tname(v)]


H = HState()


# ------------------------------------------------------------------ API seen by harness files

def _name(n):
    return H.ctx.fresh_name(n)


def int_(name, lo, hi):
    n = _name(name)
    if lo == hi:
        H.inputs.append((n, 'int', lo))
        return lo
    w = sym.bits_for(lo, hi)
    e = z3.BitVec(n, w)
    v = SymInt(e, lo, hi)
    H.inputs.append((n, 'int', v))
    if lo != -(1 << (w - 1)):
        H.ctx.assume(e >= lo)
    if hi != (1 << (w - 1)) - 1:
        H.ctx.assume(e <= hi)
    return v


def bool_(name):
    n = _name(name)
    e = z3.Bool(n)
    H.inputs.append((n, 'bool', e))
    return SymBool(e)


def bytes_(name, n):
    nm = _name(name)
    bs = [z3.BitVec('%s[%d]' % (nm, k), 8) for k in range(n)]
    H.inputs.append((nm, 'bytes', bs))
    return mk_bytes(bs)


def unicode_(name, n, lo=0, hi=0xffff):
    nm = _name(name)
    cps = []
    for k in range(n):
        e = z3.BitVec('%s[%d]' % (nm, k), 22)
        c = SymInt(e, lo, hi)
        H.ctx.assume(z3.And(e >= lo, e <= hi))
        if lo <= 0xdfff and hi >= 0xd800:
            H.ctx.assume(z3.Or(e < 0xd800, e > 0xdfff))
        cps.append(c)
    H.inputs.append((nm, 'uni', cps))
    return rt.mk_uni(cps)


def _fl(kind, name, nan):
    nm = _name(name)
    w = 32 if kind == 'f32' else 64
    e = z3.BitVec(nm, w)
    v = SymFloat(None, (kind, e))
    H.inputs.append((nm, kind, e))
    if not nan:
        H.ctx.assume(z3.Not(v.is_nan()))
    return v


def f32(name, nan=False):
    return _fl('f32', name, nan)


def f64(name, nan=False):
    return _fl('f64', name, nan)


def choice(name, options):
    """one path per option (decided through the solver as a bounded integer)"""
    opts = list(options)
    nm = _name(name)
    if len(opts) == 1:
        H.inputs.append((nm, 'choice', 0))
        return opts[0]
    w = sym.bits_for(0, len(opts) - 1)
    e = z3.BitVec(nm, w)
    v = SymInt(e, 0, len(opts) - 1)
    H.inputs.append((nm, 'int', v))
    H.ctx.assume(z3.And(e >= 0, e <= len(opts) - 1))
    return opts[v.__index__()]


def assume(c):
    H.ctx.assume(c)


def check(cond, label):
    c = H.ctx
    H.labels[label] = H.labels.get(label, 0) + 1
    if type(cond) is SymInt:
        cond = cond != 0
    if type(cond) is not SymBool:
        if type(cond) in ALLSYM:
            cond = bool(cond)
        c.checks_concrete += 1
        if cond:
            # decided on this path: the path condition alone implies the assertion
            return
        m = H.model_or_empty()
        H.violations.append({'label': label, 'inputs': H.model_inputs(m)})
        raise StopPath()
    f = z3.simplify(cond.c)
    if z3.is_true(f):
        c.checks_concrete += 1
        return
    c.checks_sent += 1
    r, m = c._check([z3.Not(f)], c.rl_check, label)
    if r == z3.unknown:
        c.unknowns += 1
        raise sym.Inconclusive('check %s: solver gave up' % label)
    if r == z3.sat:
        H.violations.append({'label': label, 'inputs': H.model_inputs(m)})
        c.assume(f)
    return


def observe(label, v):
    H.observes.append((label, v))


def eq(a, b):
    """structural equality without forking (floats: identical bits; -0.0 and 0.0 differ)"""
    if isinstance(a, (float, SymFloat)) and isinstance(b, (float, SymFloat)):
        return sym.same_float(a, b)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        return and_(*[eq(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        if id(a) in rt.SYMDICTS or id(b) in rt.SYMDICTS:
            cs = []
            for k, v in dict.items(a):
                cs.append(or_(*[and_(rt.keyeq(rt.unk(k), rt.unk(k2)), eq(v, v2)) for k2, v2 in dict.items(b)]))
            return and_(*cs)
        return and_(*[k in b and eq(v, b[k]) for k, v in dict.items(a)])
    if (a is None) != (b is None):
        return False
    r = (a == b)
    if r is NotImplemented:
        r = a is b
    return r


def hand(*xs):
    return and_(*[x if type(x) in (bool, SymBool) else bool(x) for x in xs])


def hor(*xs):
    return or_(*[x if type(x) in (bool, SymBool) else bool(x) for x in xs])


def hnot(x):
    return not_(x if type(x) in (bool, SymBool) else bool(x))


def implies(a, b):
    return hor(hnot(a), b)


def ite(c, a, b):
    """value-level conditional without forking for ints/bytes, otherwise forking"""
    if type(c) is not SymBool:
        return a if c else b
    la, lb = sym.lift(a), sym.lift(b)
    if la and lb:
        w = max(la[0].size(), lb[0].size())
        return mk_int(z3.If(c.c, sym.resize(la[0], w), sym.resize(lb[0], w)), min(la[1], lb[1]), max(la[2], lb[2]))
    ta, tb = sym.tobytes(a), sym.tobytes(b)
    if ta is not None and tb is not None and len(ta) == len(tb):
        return mk_bytes([sym.norm_byte(z3.If(c.c, sym.bv8(x), sym.bv8(y))) for x, y in zip(ta, tb)])
    return a if c else b


def same_hash(a, b):
    """hash(a) == hash(b)"""
    x, y = rt.hash_(a), rt.hash_(b)
    return x == y


def is_nan(x):
    return shims._isnan(x)


def realise(x):
    """make an integer concrete: one path per value"""
    if type(x) is SymInt:
        return x.__index__()
    return x


def flag(x):
    """truth value of x, deciding it (forks)"""
    return bool(x)


def patch(module, name, value):
    """replace a module-level name for the rest of this path"""
    UNDO.append((module, name, module.__dict__.get(name)))
    module.__dict__[name] = value


UNDO = []


def patch_lib(libname, name, value):
    """replace a library function (time.time, eventlet.api.sleep, urllib2.urlopen, socket.socket ...)"""
    m = shims.MODULES[libname]
    m.__dict__[name] = value


def llsd_doc(v):
    return shims.llsd_format_xml(v)


def lib(libname):
    return shims.MODULES[libname]


def templfile(text):
    """a readable file holding text (may be symbolic)"""
    if isinstance(text, str):
        return rt.MemFile('<template>', text)
    return SymFile(text)


class SymFile(shims.StringIO_):
    """file whose content is (partly) symbolic"""


rt.TYPENORM[SymFile] = rt.file_


def typename(x):
    return rt.tname(x)


def is_symbolic():
    return True


API = dict(int=int_, bool=bool_, bytes=bytes_, unicode=unicode_, f32=f32, f64=f64, choice=choice, assume=assume, check=check,
           observe=observe, eq=eq, and_=hand, or_=hor, not_=hnot, implies=implies, ite=ite, same_hash=same_hash, is_nan=is_nan,
           realise=realise, flag=flag, patch=patch, patch_lib=patch_lib, llsd_doc=llsd_doc, lib=lib, templfile=templfile,
           typename=typename, is_symbolic=is_symbolic)
shims.MODULES['h'] = shims.mod('h', **API)
