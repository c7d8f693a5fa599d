"""Runtime of the transformed code: Python 2 semantics over concrete and symbolic values."""
import itertools
import builtins
import functools
import io
import sys

import z3

import sym
from sym import (SymInt, SymBool, SymBytes, SymFloat, SymText, SYM, Unsupported, EngineStop, and_, or_, not_,
                 mk_bytes, mk_int, mk_bool, tobytes, bytes_eq, zb, beq)

Exc = Exception
STEP_LIMIT = 3000000
FUNCTIONS = []
COV = None


class StepLimit(EngineStop):
    pass


class U(str):
    """a Python 2 unicode object (concrete)"""
    def __add__(self, o):
        if type(o) is SymBytes:
            raise Unsupported('unicode + symbolic str')
        if not isinstance(o, str):
            return NotImplemented
        if type(o) is str:
            u_ascii(o)
        return U(str.__add__(self, o))

    def __radd__(self, o):
        if type(o) is str:
            u_ascii(o)
        return U(str.__add__(o, self))

    def __getitem__(self, i):
        return U(str.__getitem__(self, i))

    def __iter__(self):
        for c in str.__iter__(self):
            yield U(c)

    def __mul__(self, n):
        return U(str.__mul__(self, n))

    __hash__ = str.__hash__

    def __eq__(self, o):
        return str.__eq__(self, o) if isinstance(o, str) else NotImplemented

    def __ne__(self, o):
        return str.__ne__(self, o) if isinstance(o, str) else NotImplemented


def u_ascii(s):
    for i, c in enumerate(s):
        if ord(c) > 127:
            raise UnicodeDecodeError('ascii', b'\xff' * (i + 1), i, i + 1, 'ordinal not in range(128)')


class SymUni(object):
    """a Python 2 unicode object of concrete length whose code points are SymInt | int"""
    __slots__ = ('cp',)
    _symcmp_ = True

    def __init__(self, cp):
        self.cp = tuple(cp)

    def __len__(self):
        return len(self.cp)

    def __bool__(self):
        return len(self.cp) > 0

    def __iter__(self):
        for c in self.cp:
            yield mk_uni((c,))

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mk_uni(self.cp[i])
        return mk_uni((self.cp[i],))

    def __add__(self, o):
        t = uni_cps(o)
        if t is None:
            return NotImplemented
        return mk_uni(self.cp + t)

    def __radd__(self, o):
        t = uni_cps(o)
        if t is None:
            return NotImplemented
        return mk_uni(t + self.cp)

    def __eq__(self, o):
        t = uni_cps(o, False)
        if t is None or len(t) != len(self.cp):
            return False
        return and_(*[a == b for a, b in zip(self.cp, t)])

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        raise Unsupported('hash of SymUni')

    def __repr__(self):
        raise Unsupported('repr of SymUni')

    __str__ = __repr__

    def utf8(self):
        out = []
        for c in self.cp:
            if type(c) is int:
                out += list(chr(c).encode('utf-8'))
                continue
            if c < 0x80:
                bs = [c]
            elif c < 0x800:
                bs = [0xc0 | (c >> 6), 0x80 | (c & 0x3f)]
            elif c < 0x10000:
                bs = [0xe0 | (c >> 12), 0x80 | ((c >> 6) & 0x3f), 0x80 | (c & 0x3f)]
            else:
                bs = [0xf0 | (c >> 18), 0x80 | ((c >> 12) & 0x3f), 0x80 | ((c >> 6) & 0x3f), 0x80 | (c & 0x3f)]
            out += [sym.norm_byte(sym.low_bits(b, 8)) for b in bs]
        return mk_bytes(out)


def uni_cps(o, strict=True):
    if type(o) is SymUni:
        return o.cp
    if isinstance(o, str):
        if type(o) is str and strict:
            u_ascii(o)
        return tuple(map(ord, o))
    if type(o) is SymBytes:
        raise Unsupported('mixing symbolic str and unicode')
    return None


def mk_uni(cps):
    for c in cps:
        if type(c) is not int:
            return SymUni(cps)
    return U(''.join(map(chr, cps)))


ALLSYM = SYM + (SymUni,)


class file_meta(type):
    def __instancecheck__(cls, o):
        import io
        return isinstance(o, io.IOBase)


class file_(object, metaclass=file_meta):
    def __new__(cls, *a, **k):
        return open_(*a, **k)


class long_(int):
    pass


# ---------------------------------------------------------------- control

def tick():
    c = sym.CTX
    if c is not None:
        c.steps += 1
        if c.steps > STEP_LIMIT:
            raise StepLimit()


def enter(i):
    if COV is not None:
        COV[i] = 1
    c = sym.CTX
    if c is not None:
        c.steps += 1
        if c.steps > STEP_LIMIT:
            raise StepLimit()


def unsupported(what):
    if sym.CTX is None:
        return None
    raise Unsupported(what)


def flat(v, shape):
    """the values of a tuple parameter of a lambda, in the order of its names"""
    v = list(iter_(unpack(v)))
    if len(v) != len(shape):
        raise ValueError('need %d values to unpack' % len(shape))
    out = []
    for x, s in zip(v, shape):
        if s is None:
            out.append(x)
        else:
            out += flat(x, s)
    return out


def message(o):
    """attribute `message`; BaseException has it in Python 2"""
    if isinstance(o, BaseException) and not hasattr(o, 'message'):
        return o.args[0] if len(o.args) == 1 else ''
    return o.message


def unbound(t, name):
    """str.upper and the like as a function"""
    if t is not str and t is not U:
        return getattr(t, name)

    def method(o, *a, **k):
        if not isinstance(o, str) and type(o) not in ALLSYM:
            raise TypeError("descriptor '%s' requires a 'str' object but received a '%s'" % (name, tname(o)))
        return mcall(o, name, *a, **k)
    return method


def caught(e):
    """entry of every except handler: an exception caused by a gap of the engine must not be swallowed"""
    engine_gap(e)


def engine_gap(e):
    if isinstance(e, (TypeError, AttributeError, NotImplementedError)):
        m = str(e)
        if 'Sym' in m or 'z3' in m:
            raise Unsupported('%s: %s' % (type(e).__name__, m))
    if isinstance(e, z3.Z3Exception):
        raise Unsupported('z3: %s' % e)
    if isinstance(e, RecursionError):
        raise Unsupported('recursion depth')


def exc(t, inst=None):
    if inst is None:
        if isinstance(t, type) and not issubclass(t, BaseException):
            raise TypeError('exceptions must be old-style classes or derived from BaseException')
        return t
    if isinstance(inst, BaseException):
        return inst
    if isinstance(inst, tuple):
        return t(*inst)
    return t(inst)


def fixclass(cls):
    d = cls.__dict__
    if '__eq__' in d:
        if '__ne__' not in d and not any('__ne__' in b.__dict__ for b in cls.__mro__[1:-1]):
            cls.__ne__ = lambda self, o: NotImplemented_ne(self, o)
        if d.get('__hash__', 0) is None:
            for b in cls.__mro__[1:]:
                h = b.__dict__.get('__hash__')
                if h is not None:
                    cls.__hash__ = h
                    break
    if '__nonzero__' in d and '__bool__' not in d:
        cls.__bool__ = lambda self: bool(self.__nonzero__())
    if 'next' in d and '__next__' not in d:
        cls.__next__ = lambda self: self.next()
    if '__cmp__' in d and '__eq__' not in d:
        cls.__eq__ = lambda a, b: a.__cmp__(b) == 0
        cls.__ne__ = lambda a, b: a.__cmp__(b) != 0
        cls.__lt__ = lambda a, b: a.__cmp__(b) < 0
        cls.__le__ = lambda a, b: a.__cmp__(b) <= 0
        cls.__gt__ = lambda a, b: a.__cmp__(b) > 0
        cls.__ge__ = lambda a, b: a.__cmp__(b) >= 0
        if d.get('__hash__', 0) is None:
            cls.__hash__ = object.__hash__
    if '__div__' in d and '__truediv__' not in d:
        cls.__truediv__ = d['__div__']
    if '__getslice__' in d:
        pass
    return cls


def NotImplemented_ne(a, b):
    # Python 2 new-style class with __eq__ and without __ne__: != compares identities
    return a is not b


# ---------------------------------------------------------------- dictionaries with symbolic keys

class SymKey(object):
    __slots__ = ('k',)

    def __init__(self, k):
        self.k = k


SYMDICTS = set()


class HashVal(object):
    """hash of a symbolic value: an injective function of the hashed value"""
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return keyeq(self.v, o.v if isinstance(o, HashVal) else o)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __bool__(self):
        raise Unsupported('hash value inspected')

    def __hash__(self):
        raise Unsupported('hash of HashVal')


def is_symkey(k):
    t = type(k)
    if t in ALLSYM:
        return True
    if t in (str, int, U, float, bool) or k is None:
        return False
    if t is tuple:
        return any(is_symkey(x) for x in k)
    if t.__name__ == 'UUID_':
        return type(k.bytes) is not str
    h = t.__hash__
    if h is None:
        raise TypeError("unhashable type: '%s'" % t.__name__)
    if h is not object.__hash__ and not isinstance(k, type) and type(h) is type(is_symkey):
        return isinstance(h(k), HashVal) or isinstance(h(k), ALLSYM)
    return False


def keyeq(a, b):
    if a is b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        out = []
        for x, y in zip(a, b):
            r = keyeq(x, y)
            if r is False:
                return False
            out.append(r)
        return and_(*out)
    if isinstance(a, (tuple, SymKey)) or isinstance(b, (tuple, SymKey)):
        return False
    r = (a == b)
    if r is NotImplemented:
        return False
    return r


def unk(k):
    return k.k if type(k) is SymKey else k


def dkeys(d):
    if id(d) in SYMDICTS:
        return [unk(k) for k in d]
    return list(d)


def dfind(d, k):
    """native key of d equal to k, or a miss marker; forks on symbolic equality"""
    s = is_symkey(k)
    if not s:
        if dict.__contains__(d, k):
            return k
        if id(d) not in SYMDICTS:
            return dfind
    cands, conds = [], []
    for nk in dict.keys(d):
        if not s and type(nk) is not SymKey:
            continue
        c = keyeq(unk(nk), k)
        if c is False:
            continue
        if c is True:
            return nk
        cands.append(nk)
        conds.append(zb(c))
    if not cands:
        return dfind
    miss = z3.Not(z3.Or(*conds)) if len(conds) > 1 else z3.Not(conds[0])
    i = sym.CTX.choose(conds + [miss])
    return dfind if i == len(cands) else cands[i]


def dhas(d, k):
    """membership without forking per key"""
    s = is_symkey(k)
    if not s:
        if dict.__contains__(d, k):
            return True
        if id(d) not in SYMDICTS:
            return False
    cs = []
    for nk in dict.keys(d):
        if not s and type(nk) is not SymKey:
            continue
        c = keyeq(unk(nk), k)
        if c is True:
            return True
        cs.append(c)
    return or_(*cs)


def dset(d, k, v):
    nk = dfind(d, k)
    if nk is dfind:
        if is_symkey(k):
            SYMDICTS.add(id(d))
            KEEP.append(d)
            nk = SymKey(k)
        else:
            nk = k
    dict.__setitem__(d, nk, v)


KEEP = []


def is_native_dict(o):
    return isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__


def mkdict(pairs):
    d = {}
    for k, v in pairs:
        dset(d, k, v)
    return d


class PySet(object):
    """Python 2 set; members may be symbolic"""
    def __init__(self, it=()):
        self.d = {}
        for x in iter_(it):
            dset(self.d, x, True)

    def add(self, x):
        dset(self.d, x, True)

    def discard(self, x):
        nk = dfind(self.d, x)
        if nk is not dfind:
            dict.__delitem__(self.d, nk)

    def remove(self, x):
        nk = dfind(self.d, x)
        if nk is dfind:
            raise KeyError(x if not isinstance(x, ALLSYM) else 'symbolic')
        dict.__delitem__(self.d, nk)

    def __contains__(self, x):
        return bool(dhas(self.d, x))

    def __len__(self):
        return len(self.d)

    def __bool__(self):
        return len(self.d) > 0

    def __iter__(self):
        return iter(dkeys(self.d))

    def copy(self):
        return PySet(self)

    def clear(self):
        self.d.clear()

    def pop(self):
        for k in list(self.d):
            dict.__delitem__(self.d, k)
            return unk(k)
        raise KeyError('pop from an empty set')

    def update(self, *its):
        for it in its:
            for x in iter_(it):
                self.add(x)

    def union(self, *its):
        r = PySet(self)
        r.update(*its)
        return r

    def difference(self, it):
        o = it if isinstance(it, PySet) else PySet(it)
        return PySet([x for x in self if x not in o])

    def intersection(self, it):
        o = it if isinstance(it, PySet) else PySet(it)
        return PySet([x for x in self if x in o])

    def difference_update(self, it):
        for x in list(iter_(it)):
            self.discard(x)

    def issubset(self, o):
        o = o if isinstance(o, PySet) else PySet(o)
        return all(x in o for x in self)

    def issuperset(self, o):
        return all(x in self for x in o)

    def symmetric_difference(self, it):
        o = it if isinstance(it, PySet) else PySet(it)
        return self.difference(o).union(o.difference(self))

    def intersection_update(self, it):
        r = self.intersection(it)
        self.d.clear()
        self.update(r)

    def isdisjoint(self, it):
        return len(self.intersection(it)) == 0

    def __le__(self, o):
        return self.issubset(o)

    def __ge__(self, o):
        return self.issuperset(o)

    def __lt__(self, o):
        return len(self) < len(o) and self.issubset(o)

    def __gt__(self, o):
        return len(self) > len(o) and self.issuperset(o)

    def __xor__(self, o):
        return self.symmetric_difference(o)

    def __ior__(self, o):
        self.update(o)
        return self

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def __or__(self, o):
        return self.union(o)

    def __sub__(self, o):
        return self.difference(o)

    def __and__(self, o):
        return self.intersection(o)

    def __eq__(self, o):
        return isinstance(o, PySet) and len(self) == len(o) and self.issubset(o)

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def mkset(xs):
    return PySet(xs)


# ---------------------------------------------------------------- operators

def getitem(o, k):
    t = type(o)
    if t is list or t is tuple:
        if type(k) is SymInt:
            n = len(o)
            if sym.CTX.decide(zb(or_(k >= n, k < -n))):
                raise IndexError('%s index out of range' % t.__name__)
            k = k.__index__()
        return o[k]
    if t is str:
        if type(k) is SymInt:
            return SymBytes(tuple(map(ord, o)))[k]
        if type(k) is not int and not isinstance(k, (int, slice)):
            raise TypeError('str indices must be integers')
        return o[k]
    if is_native_dict(o):
        nk = dfind(o, k)
        if nk is dfind:
            m = getattr(t, '__missing__', None)
            if m is not None:
                return m(o, k)
            raise KeyError(k if not is_symkey(k) else 'symbolic key')
        return dict.__getitem__(o, nk)
    if o is None or t in (int, float, bool, SymInt, SymFloat):
        raise TypeError("'%s' object is unsubscriptable" % tname(o))
    return o[k]


def getslice(o, a, b, c):
    n = None
    if type(a) is SymInt or type(b) is SymInt:
        n = len(o)
        if a is not None:
            a = sym.clamp_slice_index(a, n)
        if b is not None:
            b = sym.clamp_slice_index(b, n)
    return o[slice(a, b, c)]


def setitem(v, o, k):
    if is_native_dict(o):
        if type(o) is not dict and type(o).__setitem__ is not dict.__setitem__:
            o[k] = v
            return
        dset(o, k, v)
        return
    if type(k) is SymInt and isinstance(o, list):
        n = len(o)
        if sym.CTX.decide(zb(or_(k >= n, k < -n))):
            raise IndexError('list assignment index out of range')
        k = k.__index__()
    if isinstance(o, str):
        raise TypeError("'str' object does not support item assignment")
    o[k] = v


def setslice(v, o, a, b, c):
    if a is not None:
        a = sym.clamp_slice_index(a, len(o))
    if b is not None:
        b = sym.clamp_slice_index(b, len(o))
    o[slice(a, b, c)] = v


def augitem(o, k, op, v):
    cur = getitem(o, k)
    import operator
    fn = {'Add': operator.iadd, 'Sub': operator.isub, 'Mult': operator.imul, 'Div': div, 'Mod': mod,
          'BitOr': operator.ior, 'BitAnd': operator.iand, 'BitXor': operator.ixor, 'LShift': operator.ilshift,
          'RShift': operator.irshift, 'FloorDiv': operator.ifloordiv, 'Pow': operator.ipow}[op]
    setitem(fn(cur, v), o, k)


def delitem(o, k):
    if is_native_dict(o) and type(o).__delitem__ is dict.__delitem__:
        nk = dfind(o, k)
        if nk is dfind:
            raise KeyError(k if not is_symkey(k) else 'symbolic key')
        dict.__delitem__(o, nk)
        return
    if type(k) is SymInt:
        k = k.__index__()
    del o[k]


def unpack(v):
    if is_native_dict(v):
        return dkeys(v)
    return v


def div(a, b):
    if isinstance(a, (float, SymFloat)) or isinstance(b, (float, SymFloat)):
        if isinstance(a, float) and isinstance(b, (float, int)):
            if b == 0:
                raise ZeroDivisionError('float division by zero')
            return a / b
        if isinstance(a, int) and isinstance(b, float):
            if b == 0:
                raise ZeroDivisionError('float division by zero')
            return a / b
        fa, fb = sym.to_float(a), sym.to_float(b)
        if fa is None or fb is None:
            raise TypeError('unsupported operand type(s) for /')
        return fa.div(fb)
    if isinstance(a, (int, SymInt, SymBool)) and isinstance(b, (int, SymInt, SymBool)):
        return a // b
    if hasattr(type(a), '__truediv__') or hasattr(type(b), '__rtruediv__'):
        return a / b
    raise TypeError("unsupported operand type(s) for /: '%s' and '%s'" % (tname(a), tname(b)))


def mod(a, b):
    if isinstance(a, str):
        return fmt(a, b)
    if type(a) is SymBytes:
        raise Unsupported('symbolic format string')
    if type(a) is SymText:
        return a
    return a % b


def _py2rank(x):
    if x is None:
        return (0, '')
    if isinstance(x, (int, float, bool, SymInt, SymFloat, SymBool)):
        return (1, '')
    return (2, tname(x))


def _order(a, b, op):
    import operator
    f = getattr(operator, op)
    try:
        return f(a, b)
    except TypeError as e:
        engine_gap(e) if not (a is None or b is None or isinstance(a, (str, SymBytes)) or isinstance(b, (str, SymBytes))) else None
        if isinstance(a, BaseException) or isinstance(b, BaseException):
            raise Unsupported('ordering of %s and %s' % (tname(a), tname(b)))
        ra, rb = _py2rank(a), _py2rank(b)
        if ra == rb:
            raise Unsupported('ordering of %s and %s' % (tname(a), tname(b)))
        return f(ra, rb)


def _xorder(a, b):
    """a and b of types whose Python 2 order is by type rank"""
    sa, sb = isinstance(a, (str, SymBytes, SymUni)), isinstance(b, (str, SymBytes, SymUni))
    return (a is None or b is None) or (sa != sb)


def lt(a, b):
    if _xorder(a, b):
        return _py2rank(a) < _py2rank(b)
    return _order(a, b, 'lt')


def le(a, b):
    if _xorder(a, b):
        return _py2rank(a) <= _py2rank(b)
    return _order(a, b, 'le')


def gt(a, b):
    if _xorder(a, b):
        return _py2rank(a) > _py2rank(b)
    return _order(a, b, 'gt')


def ge(a, b):
    if _xorder(a, b):
        return _py2rank(a) >= _py2rank(b)
    return _order(a, b, 'ge')


def in_(a, b):
    if is_native_dict(b):
        return dhas(b, a)
    if isinstance(b, str) or type(b) is SymBytes:
        t = tobytes(b)
        if tobytes(a) is None:
            raise TypeError("'in <string>' requires string as left operand")
        if isinstance(a, str) and isinstance(b, str):
            return a in b
        return sym.contains_bytes(t, a)
    if isinstance(b, (list, tuple)):
        cs = []
        for x in b:
            if x is a:
                return True
            r = keyeq(x, a) if isinstance(x, tuple) else (x == a)
            if r is NotImplemented:
                r = False
            if type(r) is SymBool:
                cs.append(r)
            elif r:
                return True
        return or_(*cs)
    return a in b


def notin(a, b):
    return not_(in_(a, b))


def is_(a, b):
    if type(a) is SymBool and isinstance(b, bool):
        return a == b
    if type(b) is SymBool and isinstance(a, bool):
        return b == a
    if isinstance(a, type) and isinstance(b, type):
        return typenorm(a) is typenorm(b)
    if type(a) in ALLSYM and type(b) in ALLSYM and a is not b and type(a) is type(b) and type(a) is SymBool:
        return a == b
    return a is b


def isnot(a, b):
    return not_(is_(a, b))


TYPENORM = {SymInt: int, SymBool: bool, SymBytes: str, SymText: str, SymFloat: float, SymUni: U, PySet: set, long_: int}


def typenorm(t):
    return TYPENORM.get(t, t)


def tname(x):
    t = typenorm(type(x))
    return {U: 'unicode'}.get(t, getattr(t, '__name__', '?'))


class SymRange(object):
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s

    def __iter__(self):
        i = self.a
        while True:
            tick()
            if not (i < self.b if self.s > 0 else i > self.b):
                return
            yield i
            i = i + self.s

    def __len__(self):
        return len(self.aslist())

    def aslist(self):
        return list(self)

    def __getitem__(self, i):
        return getitem(self.aslist(), i)


def range_(*a):
    if any(type(x) in (SymInt, SymBool) for x in a):
        if len(a) == 1:
            return SymRange(0, a[0], 1)
        if len(a) == 2:
            return SymRange(a[0], a[1], 1)
        s = a[2] if isinstance(a[2], int) else a[2].__index__()
        return SymRange(a[0], a[1], s)
    for x in a:
        if not isinstance(x, int):
            raise TypeError('range() integer argument expected, got %s' % tname(x))
    return list(range(*a))


def iter_(x):
    if is_native_dict(x):
        if id(x) in SYMDICTS:
            return iter(dkeys(x))
        return x
    if isinstance(x, (list, tuple, str, dict, SymBytes, SymRange, PySet, SymUni)):
        return x
    if x is None or isinstance(x, (int, float, bool, SymInt, SymFloat, SymBool)):
        raise TypeError("'%s' object is not iterable" % tname(x))
    return x


# ---------------------------------------------------------------- text conversion

def user_func(t, name):
    f = getattr(t, name, None)
    return f is not None and type(f) is type(user_func) and getattr(f, '__globals__', {}).get('_rt_') is not None


def str_(x=''):
    t = type(x)
    if t is str or t is SymBytes or t is SymText:
        return x
    if t is U:
        u_ascii(x)
        return str(x)
    if t is SymUni:
        return unim(x, 'encode', ('ascii',), {})
    if t in (SymInt, SymFloat, SymBool):
        return SymText()
    if t is float:
        return float_str(x, 12)
    if t is bool or t is int or x is None:
        return str(x)
    if isinstance(x, type):
        return "<type '%s'>" % x.__name__
    if t.__name__ == 'UUID_':
        return x.text()
    if user_func(t, '__str__'):
        return x.__str__()
    if isinstance(x, BaseException):
        for a in x.args:
            if type(a) in ALLSYM:
                return SymText()
        if isinstance(x, KeyError):
            return repr_(x.args[0]) if len(x.args) == 1 else str(x.args)
        return BaseException.__str__(x) if not x.args or len(x.args) > 1 else str_(x.args[0])
    if user_func(t, '__unicode__'):
        return x.__unicode__()
    return repr_(x)


def float_str(x, digits):
    if x != x:
        return 'nan'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    s = '%.*g' % (digits, x)
    if not any(c in s for c in '.en'):
        s += '.0'
    return s


def repr_(x):
    t = type(x)
    if t in ALLSYM:
        return SymText()
    if t is str:
        r = repr(x.encode('latin-1'))[1:]
        return r
    if t is U:
        return 'u' + repr(str(x))
    if t in (int, float, bool) or x is None:
        return repr(x)
    if t is list:
        return join('', ['[', join(', ', [repr_(y) for y in x]), ']'])
    if t is tuple:
        if len(x) == 1:
            return join('', ['(', repr_(x[0]), ',)'])
        return join('', ['(', join(', ', [repr_(y) for y in x]), ')'])
    if is_native_dict(x):
        return join('', ['{', join(', ', [join(': ', [repr_(unk(k)), repr_(v)]) for k, v in dict.items(x)]), '}'])
    if isinstance(x, type):
        return "<class '%s'>" % x.__name__
    if t.__name__ == 'UUID_':
        return join('', ["UUID('", x.text(), "')"])
    if user_func(t, '__repr__'):
        return x.__repr__()
    if isinstance(x, BaseException):
        return join('', [t.__name__, repr_(x.args)])
    return '<%s object>' % t.__name__


def fmt(f, args):
    """f % args"""
    uni = type(f) is U
    out = []
    i = 0
    single = not isinstance(args, tuple)
    seq = [args] if single else list(args)
    pos = 0
    n = len(f)
    mapping_used = False
    while i < n:
        c = str.__getitem__(f, i)
        if c != '%':
            j = f.find('%', i)
            if j < 0:
                j = n
            out.append(str(f)[i:j])
            i = j
            continue
        i += 1
        if i >= n:
            raise ValueError('incomplete format')
        key = None
        if f[i] == '(':
            j = f.find(')', i)
            if j < 0:
                raise ValueError('incomplete format key')
            key = str(f)[i + 1:j]
            i = j + 1
        flags = ''
        while i < n and f[i] in '#0- +':
            flags += f[i]
            i += 1
        width = ''
        while i < n and (f[i].isdigit() or f[i] == '*'):
            if f[i] == '*':
                if pos >= len(seq):
                    raise TypeError('not enough arguments for format string')
                width += str(seq[pos])
                pos += 1
            else:
                width += f[i]
            i += 1
        prec = ''
        if i < n and f[i] == '.':
            i += 1
            prec = '.'
            while i < n and f[i].isdigit():
                prec += f[i]
                i += 1
        while i < n and f[i] in 'hlL':
            i += 1
        if i >= n:
            raise ValueError('incomplete format')
        conv = str.__getitem__(f, i)
        i += 1
        if conv == '%':
            out.append('%')
            continue
        if key is not None:
            if not isinstance(args, dict):
                raise TypeError('format requires a mapping')
            mapping_used = True
            a = getitem(args, key)
        else:
            if pos >= len(seq):
                raise TypeError('not enough arguments for format string')
            a = seq[pos]
            pos += 1
        out.append(fmt1(flags, width, prec, conv, a))
        if type(a) in (U, SymUni) and conv == 's':
            uni = True
    if pos < len(seq) and not mapping_used and not (single and isinstance(args, dict)):
        raise TypeError('not all arguments converted during string formatting')
    r = join('', out) if not uni else None
    if uni:
        if any(type(o) in ALLSYM for o in out):
            return SymText()
        return U(''.join(out))
    return r


def hexdigit(nib, upper):
    """8-bit vector of the hex digit of a 4-bit vector"""
    n8 = z3.ZeroExt(4, nib)
    return z3.If(z3.ULT(n8, 10), n8 + 48, n8 + (55 if upper else 87))


def fmt1(flags, width, prec, conv, a):
    if conv in 's':
        s = str_(a) if type(a) not in (U, SymUni) else a
        if type(s) is SymUni:
            return SymText()
        if type(s) is SymText:
            return s
        if type(s) is SymBytes:
            if width or prec:
                raise Unsupported('padded %s of symbolic str')
            return s
        return ('%' + flags + width + prec + 's') % (s,)
    if conv == 'r':
        s = repr_(a)
        if type(s) in ALLSYM:
            return SymText()
        return ('%' + flags + width + prec + 's') % (s,)
    if conv in 'diu':
        if type(a) in (SymInt, SymBool, SymFloat):
            return SymText()
        if isinstance(a, (int, float)):
            return ('%' + flags + width + prec + 'd') % a
        raise TypeError('%d format: a number is required, not ' + tname(a))
    if conv in 'xX':
        if type(a) is SymInt:
            w = int(width or '0')
            if '0' in flags and a.lo >= 0 and a.hi < 16 ** w and not (set(flags) - {'0'}):
                e = sym.resize(a.e, 4 * w)
                return mk_bytes([sym.norm_byte(hexdigit(z3.Extract(4 * k + 3, 4 * k, e), conv == 'X'))
                                 for k in reversed(range(w))])
            if not flags and not width and a.lo >= 0 and a.hi <= 0xffffffff:
                # number of digits is decided by forking
                d = 1
                while not (a < 16 ** d):
                    d += 1
                e = sym.resize(a.e, 4 * d)
                return mk_bytes([sym.norm_byte(hexdigit(z3.Extract(4 * k + 3, 4 * k, e), conv == 'X'))
                                 for k in reversed(range(d))])
            return SymText()
        if isinstance(a, int):
            return ('%' + flags + width + prec + conv) % a
        raise TypeError('%x format: an integer is required, not ' + tname(a))
    if conv in 'eEfFgG':
        if type(a) in (SymFloat, SymInt, SymBool):
            return SymText()
        if isinstance(a, (int, float)):
            return ('%' + flags + width + prec + conv) % a
        raise TypeError('float argument required, not ' + tname(a))
    if conv == 'c':
        if type(a) is SymInt:
            return chr_(a)
        return '%c' % a
    if conv == 'o' and isinstance(a, int):
        return ('%' + flags + width + prec + conv) % a
    raise Unsupported('format %' + conv)


def join(sep, parts):
    parts = list(iter_(parts))
    u = type(sep) is U
    for k, p in enumerate(parts):
        t = type(p)
        if t is SymText:
            return SymText()
        if t in (U, SymUni):
            u = True
        elif not isinstance(p, str) and t is not SymBytes:
            raise TypeError('sequence item %d: expected string, %s found' % (k, tname(p)))
    if u:
        r = ()
        for k, p in enumerate(parts):
            if k:
                r += uni_cps(sep)
            r += uni_cps(p)
        return mk_uni(r)
    if type(sep) is not SymBytes and not any(type(p) is SymBytes for p in parts):
        return str(sep).join(parts)
    out = []
    sb = tobytes(sep)
    for k, p in enumerate(parts):
        if k:
            out += sb
        out += tobytes(p)
    return mk_bytes(out)


# ---------------------------------------------------------------- methods

WS = (9, 10, 11, 12, 13, 32)


def byte_in(b, chars):
    if type(b) is int:
        return b in chars
    return mk_bool(z3.simplify(z3.Or(*[b == c for c in chars]))) if chars else False


def byte_between(b, lo, hi):
    if type(b) is int:
        return lo <= b <= hi
    return mk_bool(z3.simplify(z3.And(z3.UGE(b, lo), z3.ULE(b, hi))))


def bmap(b, lo, hi, delta):
    if type(b) is int:
        return b + delta if lo <= b <= hi else b
    return sym.norm_byte(z3.If(z3.And(z3.UGE(b, lo), z3.ULE(b, hi)), b + delta, b))


def strm(o, name, a, k):
    """method `name` of a Python 2 str o (concrete str or SymBytes)"""
    if name == 'join':
        return join(o, a[0])
    args_sym = any(type(x) in ALLSYM for x in a)
    conc = isinstance(o, str) and not args_sym
    if name == 'encode':
        enc = a[0] if a else 'ascii'
        e = enc.lower().replace('_', '-')
        if len(a) > 1 and a[1] != 'strict' or k:
            raise Unsupported('codec error handler')
        if e in ('hex',):
            import shims
            return shims.hexlify(o)
        if e == 'base64':
            import shims
            return shims.encodestring(o)
        if type(o) is SymBytes:
            for b in o.b:
                if not (byte_between(b, 0, 127)):
                    raise UnicodeDecodeError('ascii', b'\xff', 0, 1, 'ordinal not in range(128)')
            return o
        if e in ('utf-8', 'utf8', 'ascii', 'latin-1', 'iso-8859-1'):
            # Jython: str.encode('utf-8') treats the str as latin-1 code points
            return o.encode(e).decode('latin-1')
        raise Unsupported('encode ' + enc)
    if name == 'decode':
        enc = (a[0] if a else 'ascii').lower().replace('_', '-')
        if len(a) > 1 and a[1] != 'strict' or k:
            raise Unsupported('codec error handler')
        if enc == 'hex':
            import shims
            return shims.unhexlify(o)
        if type(o) is SymBytes:
            if enc == 'ascii' or enc in ('utf-8', 'utf8'):
                ok = and_(*[byte_between(b, 0, 127) for b in o.b])
                if not ok:
                    if enc == 'ascii':
                        raise UnicodeDecodeError('ascii', b'\xff', 0, 1, 'ordinal not in range(128)')
                    raise Unsupported('utf-8 decode of symbolic non-ascii bytes')
            return mk_uni([b if type(b) is int else mk_int(z3.ZeroExt(1, b), 0, 255) for b in o.b])
        if enc in ('base64', 'zlib', 'rot13', 'string-escape', 'quopri', 'uu', 'bz2'):
            raise Unsupported('decode ' + enc)
        raw = o.encode('latin-1')
        return U(raw.decode(enc))
    if conc:
        return strm_conc(o, name, a, k)
    if name == 'format':
        return SymText()
    b = tobytes(o)
    n = len(b)
    if name in ('find', 'index', 'rfind', 'rindex', 'count'):
        t = tobytes(a[0])
        if t is None:
            raise TypeError('expected a character buffer object')
        lo = a[1] if len(a) > 1 else 0
        hi = a[2] if len(a) > 2 else n
        lo, hi, _ = slice(lo, hi).indices(n)
        m = len(t)
        pos = list(range(lo, hi - m + 1))
        if name == 'count':
            c, i = 0, lo
            while i <= hi - m:
                if bytes_eq(b[i:i + m], t):
                    c += 1
                    i += max(m, 1)
                else:
                    i += 1
            return c
        if name[0] == 'r':
            pos.reverse()
        for i in pos:
            if bytes_eq(b[i:i + m], t):
                return i
        if name.endswith('index'):
            raise ValueError('substring not found')
        return -1
    if name in ('startswith', 'endswith'):
        ps = a[0] if isinstance(a[0], tuple) else (a[0],)
        bb = b[slice(*a[1:3])] if len(a) > 1 else b
        out = []
        for p in ps:
            t = tobytes(p)
            if t is None:
                raise TypeError('expected a character buffer object')
            out.append(len(t) <= len(bb) and bytes_eq(bb[:len(t)] if name == 'startswith' else bb[len(bb) - len(t):], t))
        return or_(*out)
    if name in ('strip', 'lstrip', 'rstrip'):
        cs = WS if not a or a[0] is None else tobytes(a[0])
        if any(type(c) is not int for c in cs):
            raise Unsupported('strip with symbolic set')
        i, j = 0, n
        if name != 'rstrip':
            while i < j and byte_in(b[i], cs):
                i += 1
        if name != 'lstrip':
            while j > i and byte_in(b[j - 1], cs):
                j -= 1
        return mk_bytes(b[i:j])
    if name in ('split', 'rsplit', 'partition', 'rpartition'):
        sep = a[0] if a else None
        maxs = a[1] if len(a) > 1 else -1
        if name == 'rsplit' and maxs >= 0:
            if sep is None:
                raise Unsupported('rsplit with limit on symbolic str')
            r, rest = [], o
            for _ in range(maxs):
                h, s, t = strm(rest, 'rpartition', (sep,), {})
                if len(s) == 0:
                    break
                r.insert(0, t)
                rest = h
            return [rest] + r
        if name in ('partition', 'rpartition'):
            t = tobytes(sep)
            i = strm(o, 'find' if name == 'partition' else 'rfind', (sep,), {})
            if i < 0:
                return (o, '', '') if name == 'partition' else ('', '', o)
            return (mk_bytes(b[:i]), sep, mk_bytes(b[i + len(t):]))
        out, cur, i = [], [], 0
        if sep is None:
            while i < n:
                if (maxs < 0 or len(out) < maxs) and byte_in(b[i], WS):
                    if cur:
                        out.append(mk_bytes(cur))
                    cur = []
                else:
                    if not cur and maxs >= 0 and len(out) >= maxs and byte_in(b[i], WS):
                        i += 1
                        continue
                    cur.append(b[i])
                i += 1
            if cur:
                out.append(mk_bytes(cur))
            return out
        t = tobytes(sep)
        if not t:
            raise ValueError('empty separator')
        while i < n:
            if (maxs < 0 or len(out) < maxs) and i + len(t) <= n and bytes_eq(b[i:i + len(t)], t):
                out.append(mk_bytes(cur))
                cur = []
                i += len(t)
            else:
                cur.append(b[i])
                i += 1
        out.append(mk_bytes(cur))
        return out
    if name == 'replace':
        t, r = tobytes(a[0]), tobytes(a[1])
        cnt = a[2] if len(a) > 2 else -1
        if not t:
            raise Unsupported('replace of empty pattern in symbolic str')
        out, i = [], 0
        while i < n:
            if cnt != 0 and i + len(t) <= n and bytes_eq(b[i:i + len(t)], t):
                out += r
                i += len(t)
                cnt -= 1
            else:
                out.append(b[i])
                i += 1
        return mk_bytes(out)
    if name == 'upper':
        return mk_bytes([bmap(x, 97, 122, -32) for x in b])
    if name == 'lower':
        return mk_bytes([bmap(x, 65, 90, 32) for x in b])
    if name in ('isdigit', 'isalpha', 'isalnum', 'isspace'):
        if not b:
            return False
        dg = lambda x: byte_between(x, 48, 57)
        al = lambda x: or_(byte_between(x, 65, 90), byte_between(x, 97, 122))
        f = {'isdigit': dg, 'isalpha': al, 'isalnum': lambda x: or_(dg(x), al(x)), 'isspace': lambda x: byte_in(x, WS)}[name]
        return and_(*[f(x) for x in b])
    if name in ('ljust', 'rjust', 'zfill'):
        w = a[0]
        c = ord(a[1]) if len(a) > 1 else 32
        pad = (c,) * max(0, w - n)
        if name == 'zfill':
            if n and pad and byte_in(b[0], (43, 45)):
                return mk_bytes(b[:1] + (48,) * len(pad) + b[1:])
            return mk_bytes((48,) * len(pad) + b)
        return mk_bytes(b + pad if name == 'ljust' else pad + b)
    if name == 'splitlines':
        keep = bool(a and a[0])
        out, cur, i = [], [], 0
        while i < n:
            m = 0
            if byte_in(b[i], (13,)):
                m = 2 if i + 1 < n and byte_in(b[i + 1], (10,)) else 1
            elif byte_in(b[i], (10,)):
                m = 1
            if m:
                out.append(mk_bytes(cur + list(b[i:i + m]) if keep else cur))
                cur = []
                i += m
            else:
                cur.append(b[i])
                i += 1
        if cur:
            out.append(mk_bytes(cur))
        return out
    if name == 'swapcase':
        return mk_bytes([(bmap(x, 65, 90, 32) if byte_between(x, 65, 90) else bmap(x, 97, 122, -32)) for x in b])
    if name in ('title', 'capitalize'):
        out, start = [], True
        for x in b:
            al = byte_between(x, 65, 90) or byte_between(x, 97, 122)
            out.append(bmap(x, 97, 122, -32) if start else bmap(x, 65, 90, 32))
            start = (not al) if name == 'title' else False
        return mk_bytes(out)
    if name in ('isupper', 'islower'):
        up = [byte_between(x, 65, 90) for x in b]
        lo = [byte_between(x, 97, 122) for x in b]
        good, bad = (up, lo) if name == 'isupper' else (lo, up)
        return and_(or_(*good), not_(or_(*bad))) if b else False
    if name == 'center':
        pad = max(0, a[0] - n)
        c = ord(a[1]) if len(a) > 1 else 32
        left = pad // 2 + (pad & a[0] & 1)
        return mk_bytes((c,) * left + b + (c,) * (pad - left))
    if name == 'translate':
        tab = a[0]
        dele = tobytes(a[1]) if len(a) > 1 and a[1] is not None else ()
        if any(type(c) is not int for c in dele) or not (tab is None or isinstance(tab, str)):
            raise Unsupported('translate with symbolic table')
        if tab is not None and len(tab) != 256:
            raise ValueError('translation table must be 256 characters long')
        out = []
        for x in b:
            if dele and byte_in(x, dele):
                continue
            if tab is None:
                out.append(x)
            elif type(x) is int:
                out.append(ord(tab[x]))
            else:
                e = x
                for k in range(256):
                    if ord(tab[k]) != k:
                        e = z3.If(x == k, z3.BitVecVal(ord(tab[k]), 8), e)
                out.append(sym.norm_byte(z3.simplify(e)))
        return mk_bytes(out)
    raise Unsupported('str.%s on symbolic value' % name)


def strm_conc(o, name, a, k):
    if name in ('strip', 'lstrip', 'rstrip') and (not a or a[0] is None):
        return getattr(o, name)('\t\n\x0b\x0c\r ')
    if name == 'split' and (not a or a[0] is None):
        t = ''.join(' ' if c in '\t\n\x0b\x0c\r ' else (chr(0x100 + ord(c)) if c in '\x1c\x1d\x1e\x1f\x85\xa0' else c) for c in o)
        return [''.join(chr(ord(c) - 0x100) if 0x100 <= ord(c) < 0x200 else c for c in p) for p in t.split(*a)]
    if name in ('upper', 'lower', 'title', 'capitalize', 'swapcase', 'isdigit', 'isalpha', 'isalnum', 'isspace',
                'isupper', 'islower'):
        r = getattr(o.encode('latin-1'), name)()
        return r.decode('latin-1') if isinstance(r, bytes) else r
    if name == 'translate':
        tab = a[0]
        dele = a[1] if len(a) > 1 else ''
        return ''.join((tab[ord(c)] if tab is not None else c) for c in o if c not in dele)
    if name not in ('find', 'rfind', 'index', 'rindex', 'replace', 'startswith', 'endswith', 'strip', 'lstrip',
                    'rstrip', 'split', 'rsplit', 'count', 'partition', 'rpartition', 'ljust', 'rjust', 'center',
                    'zfill', 'format', 'splitlines', 'expandtabs'):
        raise AttributeError("'str' object has no attribute '%s'" % name)
    for x in a:
        if type(x) in (int, str, U, tuple) or x is None:
            continue
        if name in ('find', 'rfind', 'index', 'rindex', 'replace', 'startswith', 'endswith', 'count', 'split'):
            raise TypeError('expected a character buffer object')
    return getattr(o, name)(*a, **k)


UMETH = set('join find rfind index replace startswith endswith split rsplit strip lstrip rstrip count encode decode '
            'partition rpartition upper lower title isdigit isalpha isalnum isspace ljust rjust center zfill format splitlines'.split())


def unim(o, name, a, k):
    if name == 'join':
        return join(o, a[0])
    if type(o) is SymUni:
        if name == 'encode':
            enc = (a[0] if a else 'ascii').lower().replace('_', '-')
            if len(a) > 1 and a[1] != 'strict' or k:
                raise Unsupported('codec error handler')
            if enc in ('utf-8', 'utf8'):
                return o.utf8()
            lim = 127 if enc == 'ascii' else 255
            if enc not in ('ascii', 'latin-1', 'iso-8859-1'):
                raise Unsupported('encode ' + enc)
            for c in o.cp:
                if c > lim:
                    raise UnicodeEncodeError(enc, '\uffff', 0, 1, 'ordinal not in range')
            return mk_bytes([sym.norm_byte(sym.low_bits(c, 8)) if type(c) is not int else c for c in o.cp])
        raise Unsupported('unicode.%s on symbolic value' % name)
    if name == 'encode':
        return str.encode(o, a[0] if a else 'ascii', *(a[1:])).decode('latin-1')
    if name == 'decode':
        u_ascii(o)
        return o
    if name not in UMETH:
        raise AttributeError("'unicode' object has no attribute '%s'" % name)
    if any(type(x) in ALLSYM for x in a):
        raise Unsupported('unicode.%s with symbolic argument' % name)
    r = getattr(str, name)(o, *a, **k)
    if isinstance(r, str):
        return U(r)
    if isinstance(r, list):
        return [U(x) for x in r]
    if isinstance(r, tuple):
        return tuple(U(x) for x in r)
    return r


MAPPINGPROXY = type(type.__dict__)
LISTM = set('append extend insert remove pop index count sort reverse'.split())


def mcall(o, name, *a, **k):
    t = type(o)
    if (o is str or o is U) and a and name[0] != '_':
        return unbound(o, name)(*a, **k)
    if name[0] == '_':
        if a or k or isinstance(o, type) or user_func(t, name):
            return getattr(o, name)(*a, **k)
        return {'__str__': str_, '__repr__': repr_, '__len__': len_, '__hash__': hash_}[name](o)
    if t is str or t is SymBytes:
        return strm(o, name, a, k)
    if t is list:
        if name == 'append':
            return o.append(*a)
        if name not in LISTM:
            raise AttributeError("'list' object has no attribute '%s'" % name)
        if name == 'sort':
            r = sorted_(o, *a, **k)
            o[:] = r
            return None
        if name == 'pop' and a and type(a[0]) is SymInt:
            a = (a[0].__index__(),)
        if name == 'extend':
            return o.extend(iter_(a[0]))
        if name == 'insert' and type(a[0]) is SymInt:
            a = (sym.clamp_slice_index(a[0], len(o)), a[1])
        return getattr(o, name)(*a)
    if t is U or t is SymUni:
        return unim(o, name, a, k)
    if is_native_dict(o):
        return dictm(o, name, a, k)
    if t is MAPPINGPROXY:
        return dictm(dict(o), name, a, k)
    if t is SymText:
        return o
    if name == 'next':
        f = getattr(o, 'next', None)
        if f is None:
            return builtins.next(o, *a)
        return f(*a)
    if o is None or isinstance(o, (int, float, SymInt, SymFloat, SymBool, tuple)) and name not in ('count', 'index'):
        raise AttributeError("'%s' object has no attribute '%s'" % (tname(o), name))
    return getattr(o, name)(*a, **k)


def dictm(o, name, a, k):
    t = type(o)
    if name not in ('has_key', 'keys', 'values', 'items', 'iteritems', 'iterkeys', 'itervalues', 'viewkeys', 'viewvalues',
                    'viewitems', 'get', 'pop', 'setdefault', 'update', 'copy', 'clear', 'popitem'):
        if t is dict:
            raise AttributeError("'dict' object has no attribute '%s'" % name)
        return getattr(o, name)(*a, **k)
    if t is not dict and user_func(t, name):
        return getattr(o, name)(*a, **k)
    if name == 'has_key':
        return dhas(o, a[0])
    if name in ('keys', 'iterkeys', 'viewkeys'):
        r = dkeys(o)
        return r if name == 'keys' else iter(r) if name == 'iterkeys' else PySet(r)
    if name in ('values', 'viewvalues'):
        return list(dict.values(o))
    if name in ('items', 'viewitems'):
        return [(unk(x), y) for x, y in dict.items(o)]
    if name == 'iteritems':
        return ((unk(x), y) for x, y in dict.items(o))
    if name == 'itervalues':
        return iter(dict.values(o))
    if name == 'get':
        nk = dfind(o, a[0])
        return (a[1] if len(a) > 1 else k.get('default')) if nk is dfind else dict.__getitem__(o, nk)
    if name == 'pop':
        nk = dfind(o, a[0])
        if nk is dfind:
            if len(a) > 1:
                return a[1]
            raise KeyError(a[0] if not is_symkey(a[0]) else 'symbolic key')
        return dict.pop(o, nk)
    if name == 'setdefault':
        nk = dfind(o, a[0])
        if nk is dfind:
            v = a[1] if len(a) > 1 else None
            dset(o, a[0], v)
            return v
        return dict.__getitem__(o, nk)
    if name == 'update':
        for x in a:
            if isinstance(x, dict):
                for kk, v in list(dict.items(x)):
                    dset(o, unk(kk), v)
            elif hasattr(x, 'keys'):
                for kk in x.keys():
                    dset(o, kk, x[kk])
            else:
                for kk, v in x:
                    dset(o, kk, v)
        for kk, v in k.items():
            dset(o, kk, v)
        return None
    if name == 'copy':
        r = dict.copy(o)
        if id(o) in SYMDICTS:
            SYMDICTS.add(id(r))
            KEEP.append(r)
        return r
    if name == 'clear':
        return dict.clear(o)
    if name == 'popitem':
        kk, v = dict.popitem(o)
        return unk(kk), v


# ---------------------------------------------------------------- builtins

def call(f, *a, **k):
    try:
        g = BTABLE.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(*a, **k)
    return f(*a, **k)


def int_(x=0, base=None):
    if base is not None:
        if type(x) is SymBytes:
            return parse_int(x.b, base)
        if not isinstance(x, str):
            raise TypeError("int() can't convert non-string with explicit base")
        return atoi(x, base)
    t = type(x)
    if t is SymInt or t is int:
        return x
    if t is SymBool:
        return mk_int(*sym.lift(x))
    if t is bool:
        return builtins.int(x)
    if t is SymBytes:
        return parse_int(x.b, 10)
    if isinstance(x, str):
        return atoi(x, 10)
    if t is SymFloat:
        return float_to_int(x)
    if t is float:
        return builtins.int(x)
    if hasattr(t, '__int__'):
        return x.__int__()
    raise TypeError("int() argument must be a string or a number, not '%s'" % tname(x))


def float_to_int(x):
    # truncation, for |x| < 2**62
    lim = sym.fpval(float(1 << 62))
    if not sym.CTX.decide(z3.And(z3.fpLT(x.e, lim), z3.fpLT(z3.fpNeg(lim), x.e))):
        if sym.CTX.decide(z3.fpIsNaN(x.e)):
            raise ValueError('cannot convert float NaN to integer')
        if sym.CTX.decide(z3.fpIsInf(x.e)):
            raise OverflowError('cannot convert float infinity to integer')
        raise Unsupported('int() of a huge symbolic float')
    return mk_int(z3.fpToSBV(z3.RTZ(), x.e, z3.BitVecSort(64)), -(1 << 62), 1 << 62)


def atoi(s, base=10):
    """Python 2 int(str, base)"""
    t = s.strip('\t\n\x0b\x0c\r ')
    if '_' in t:
        raise ValueError("invalid literal for int() with base %d: %r" % (base, s))
    u = t
    if u[-1:] in ('l', 'L') and len(u) > 1 and base <= 10 or (base == 0 and u[-1:] in ('l', 'L')):
        pass                      # int('5L') is an error in Python 2; long('5L') is not
    if base == 0 and len(u.lstrip('+-')) > 1 and u.lstrip('+-')[0] == '0' and u.lstrip('+-')[1:].isdigit():
        sg = -1 if u[0] == '-' else 1
        return sg * builtins.int(u.lstrip('+-'), 8) if set(u.lstrip('+-')) <= set('01234567') else _badint(s, base)
    if any(ord(c) > 127 for c in u):
        _badint(s, base)
    try:
        return builtins.int(u, base)
    except ValueError:
        _badint(s, base)


def _badint(s, base):
    raise ValueError("invalid literal for int() with base %d: '%s'" % (base, s))


def parse_int(b, base):
    """int() of a symbolic byte string; sign/space/prefix characters are decided by forking"""
    def isc(x, chars):
        r = byte_in(x, chars)
        return bool(r)
    i, j = 0, len(b)
    while i < j and isc(b[i], WS):
        i += 1
    while j > i and isc(b[j - 1], WS):
        j -= 1
    neg = False
    if i < j and isc(b[i], (43, 45)):
        neg = isc(b[i], (45,))
        i += 1
    if base in (0, 16) and j - i > 2 and isc(b[i], (48,)) and isc(b[i + 1], (120, 88)):
        i += 2
        base = 16
    elif base == 0:
        if j - i > 1 and isc(b[i], (48,)):
            if isc(b[i + 1], (66, 98, 79, 111)):
                raise Unsupported('0b/0o prefix in symbolic integer')
            base = 8
        else:
            base = 10
    if i >= j:
        raise ValueError('invalid literal for int()')
    v = 0
    oks = []
    for x in b[i:j]:
        if base <= 10:
            oks.append(byte_between(x, 48, 47 + base))
        else:
            oks.append(or_(byte_between(x, 48, 57), byte_between(x, 97, 102), byte_between(x, 65, 70)))
    if not and_(*oks):
        raise ValueError('invalid literal for int()')
    if base == 16:
        nibs = []
        for x in b[i:j]:
            x = sym.bv8(x)
            d = z3.If(z3.ULE(x, 57), x - 48, z3.If(z3.UGE(x, 97), x - 87, x - 55))
            nibs.append(z3.Extract(3, 0, d))
        e = z3.simplify(z3.Concat(*nibs)) if len(nibs) > 1 else nibs[0]
        r = mk_int(z3.ZeroExt(1, e), 0, (1 << (4 * len(nibs))) - 1)
    else:
        r = 0
        for x in b[i:j]:
            d = x - 48 if type(x) is int else mk_int(sym.resize(z3.ZeroExt(1, x - 48), 5), 0, base - 1)
            r = r * base + d
    return -r if neg else r


def parse_float(b):
    """float() of a symbolic byte string in plain decimal notation; the kinds of its characters are decided by forking"""
    isc = lambda x, chars: bool(byte_in(x, chars))
    bad = ValueError('invalid literal for float')
    i, j = 0, len(b)
    while i < j and isc(b[i], WS):
        i += 1
    while j > i and isc(b[j - 1], WS):
        j -= 1
    neg = False
    if i < j and isc(b[i], (43, 45)):
        neg = isc(b[i], (45,))
        i += 1
    v, n, frac = 0, 0, None
    for x in b[i:j]:
        if bool(byte_between(x, 48, 57)):
            v = v * 10 + (x - 48 if type(x) is int else mk_int(sym.resize(z3.ZeroExt(1, x - 48), 5), 0, 9))
            n += 1
            if frac is not None:
                frac += 1
        elif frac is None and isc(x, (46,)):
            frac = 0
        elif bool(or_(byte_between(x, 65, 90), byte_between(x, 97, 122), byte_in(x, (43, 45, 95)))):
            raise Unsupported('float() of symbolic str that is not plain decimal')
        else:
            raise bad
    if n == 0:
        raise bad
    if n > 15:
        raise Unsupported('float() of a long symbolic str')
    f = float_(v)
    if frac:
        f = f / (10.0 ** frac)
    return -f if neg else f


def float_(x=0.0):
    t = type(x)
    if t in (SymFloat, float):
        return x
    if t in (SymInt, SymBool):
        return sym.to_float(x)
    if t is SymBytes:
        return parse_float(x.b)
    if isinstance(x, str):
        s = x.strip('\t\n\x0b\x0c\r \x00') if False else x.strip('\t\n\x0b\x0c\r ')
        if '_' in s or any(ord(c) > 127 for c in s):
            raise ValueError('invalid literal for float: %s' % x)
        try:
            return builtins.float(s)
        except ValueError:
            raise ValueError('invalid literal for float: %s' % x)
    if t in (int, bool) or hasattr(t, '__float__'):
        return builtins.float(x)
    raise TypeError('float() argument must be a string or a number')


def bool_(x=False):
    if type(x) is SymBool:
        return x
    if type(x) is SymInt:
        return x != 0
    return builtins.bool(x)


def unicode_(x='', enc='ascii', *a):
    t = type(x)
    if t in (U, SymUni):
        return x
    if t in (str, SymBytes):
        return strm(x, 'decode', (enc,), {})
    r = str_(x)
    if type(r) is SymText:
        return r
    return U(r)


def type_(*a):
    if len(a) != 1:
        return fixclass(type(*a))
    return typenorm(type(a[0]))


def isinstance_(x, c):
    if isinstance(c, tuple):
        return any(isinstance_(x, y) for y in c)
    t = type(x)
    if hasattr(c, '_abc_'):
        c = c._abc_
    if hasattr(type(c), '_poison_type_'):
        raise Unsupported('isinstance with a class that is not modelled')
    if t in TYPENORM and t is not PySet and t is not long_:
        n = typenorm(t)
        if c is BASESTRING:
            return n in (str, U)
        return issubclass(n, c) and not (n is U and c is str)
    if t is U:
        return c in (U, BASESTRING, object)
    if c is BASESTRING:
        return isinstance(x, str)
    if t is PySet:
        return c in (set, PySet, object)
    if c is long_:
        return t is int and not -2 ** 31 <= x < 2 ** 31
    if not isinstance(c, type):
        raise TypeError('isinstance() arg 2 must be a class, type, or tuple of classes and types')
    return isinstance(x, c)


class BASESTRING(object):
    pass


def len_(x):
    if isinstance(x, (int, float, SymInt, SymFloat, SymBool)) or x is None:
        raise TypeError("object of type '%s' has no len()" % tname(x))
    return len(x)


def ord_(x):
    if type(x) is SymBytes:
        if len(x.b) != 1:
            raise TypeError('ord() expected a character, but string of length %d found' % len(x.b))
        b = x.b[0]
        return mk_int(z3.ZeroExt(1, b), 0, 255)
    if type(x) is SymUni and len(x.cp) == 1:
        return x.cp[0]
    if not isinstance(x, str):
        raise TypeError('ord() expected string of length 1, but %s found' % tname(x))
    if len(x) != 1:
        raise TypeError('ord() expected a character, but string of length %d found' % len(x))
    return ord(x)


def chr_(x):
    if type(x) is SymInt:
        if not sym.int_in(x, 0, 255):
            raise ValueError('chr() arg not in range(256)')
        return mk_bytes((sym.norm_byte(sym.low_bits(x, 8)),))
    if not isinstance(x, int):
        raise TypeError('an integer is required')
    if not 0 <= x <= 255:
        raise ValueError('chr() arg not in range(256)')
    return chr(x)


def unichr_(x):
    if type(x) is SymInt:
        return mk_uni((x,))
    return U(chr(x))


def map_(f, *its):
    if len(its) == 1:
        if f is None:
            return list(iter_(its[0]))
        return [call(f, x) for x in iter_(its[0])]
    rows = itertools.zip_longest(*[iter_(i) for i in its])
    return [xs if f is None else call(f, *xs) for xs in rows]


def filter_(f, it):
    r = [x for x in iter_(it) if (call(f, x) if f is not None else x)]
    if isinstance(it, str) or type(it) is SymBytes:
        return join('', r)
    return tuple(r) if isinstance(it, tuple) else r


def list_(it=()):
    return list(iter_(it))


def tuple_(it=()):
    return tuple(iter_(it))


def dict_(*a, **k):
    d = {}
    dictm(d, 'update', a, k)
    return d


def sorted_(it, cmp=None, key=None, reverse=False):
    r = list(iter_(it))
    ks = r if key is None else [key(x) for x in r]
    ts = set(type(x) for x in ks)
    if cmp is None and len(ts) == 1 and (ts <= {str, int, float}):
        order = ks
    else:
        order = [functools.cmp_to_key(cmp or cmp_)(x) for x in ks]
    i = sorted(range(len(r)), key=lambda n: order[n], reverse=bool(reverse))
    return [r[n] for n in i]


def hash_(x):
    t = type(x)
    if t in ALLSYM:
        return HashVal(x)
    if t is tuple:
        if is_symkey(x):
            return HashVal(x)
        return hash(x)
    if t.__name__ == 'UUID_' and is_symkey(x):
        return HashVal(x)
    h = t.__hash__
    if h is None or t in (list, dict, PySet):
        raise TypeError("unhashable type: '%s'" % tname(x))
    if type(h) is type(hash_):
        return h(x)
    return hash(x)


def repr_b(x):
    return repr_(x)


def print_(dest, vals, nl):
    for v in vals:
        str_(v)
    if dest is not None and hasattr(dest, 'write'):
        pass


class MemFile(io.StringIO):
    """a file opened for reading, held in memory (file offsets must not be shared between forked paths)"""
    def __init__(self, path, text):
        io.StringIO.__init__(self, text, newline='\n')
        self.path = path
        self.name = path
        self.mode = 'r'

    def __deepcopy__(self, memo):
        return self


def open_(path, mode='r', *a):
    if type(path) in ALLSYM:
        raise Unsupported('open of symbolic path')
    m = mode.replace('b', '').replace('U', '') or 'r'
    if m == 'r':
        with open(path, 'r', encoding='latin-1', newline='') as f:
            text = f.read()
        if 'b' not in mode:
            pass
        return MemFile(path, text)
    return open(path, m, encoding='latin-1', newline='')


def hex_(x):
    if type(x) is SymInt:
        return SymText()
    return hex(x)


def cmp_(a, b):
    if lt(a, b):
        return -1
    return 1 if gt(a, b) else 0


def divmod_(a, b):
    if isinstance(a, SymInt) or isinstance(b, SymInt):
        return divmod(a, b)
    return divmod(a, b)


def sum_(it, start=0):
    for x in iter_(it):
        start = start + x
    return start


def reduce_(f, it, *a):
    return functools.reduce(f, iter_(it), *a)


def round_(x, n=0):
    if type(x) in ALLSYM:
        raise Unsupported('round of symbolic value')
    import math
    m = 10.0 ** n
    return math.copysign(math.floor(abs(x) * m + 0.5) / m, x)


def min_(*a, **k):
    if len(a) == 1:
        a = list(iter_(a[0]))
    if not a:
        raise ValueError('min() arg is an empty sequence')
    r = a[0]
    key = k.get('key')
    for x in a[1:]:
        if (lt(key(x), key(r)) if key else lt(x, r)):
            r = x
    return r


def max_(*a, **k):
    if len(a) == 1:
        a = list(iter_(a[0]))
    if not a:
        raise ValueError('max() arg is an empty sequence')
    r = a[0]
    key = k.get('key')
    for x in a[1:]:
        if (gt(key(x), key(r)) if key else gt(x, r)):
            r = x
    return r


def any_(it):
    for x in iter_(it):
        if x:
            return True
    return False


def all_(it):
    for x in iter_(it):
        if not x:
            return False
    return True


def zip_(*its):
    return list(zip(*[iter_(i) for i in its]))


def enumerate_(it, start=0):
    return enumerate(iter_(it), start)


def reversed_(x):
    return reversed(x.aslist() if type(x) is SymRange else x)


class bytearray_(object):
    """minimal mutable byte array"""
    def __init__(self, src=()):
        if isinstance(src, int):
            src = '\0' * src
        self.l = []
        if isinstance(src, str) or type(src) is SymBytes:
            self.l = [b if type(b) is int else mk_int(z3.ZeroExt(1, b), 0, 255) for b in tobytes(src)]
        else:
            for x in iter_(src):
                self.append(x)

    def append(self, x):
        if not sym.int_in(x, 0, 255):
            raise ValueError('byte must be in range(0, 256)')
        self.l.append(x)

    def extend(self, it):
        for x in (it.l if isinstance(it, bytearray_) else bytearray_(it).l):
            self.l.append(x)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        r = bytearray_()
        r.l = self.l + bytearray_(o).l
        return r

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return iter(self.l)

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = bytearray_()
            r.l = self.l[i]
            return r
        return getitem(self.l, i)

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            self.l[i] = bytearray_(v).l
            return
        if isinstance(v, (str, SymBytes)):
            v = ord_(v)
        if not sym.int_in(v, 0, 255):
            raise ValueError('byte must be in range(0, 256)')
        setitem(v, self.l, i)

    def __delitem__(self, i):
        del self.l[i]

    def __eq__(self, o):
        if isinstance(o, bytearray_):
            o = o.tostr()
        return self.tostr() == o

    def __ne__(self, o):
        return not_(self == o)

    def __mul__(self, n):
        r = bytearray_()
        r.l = self.l * n
        return r

    def __contains__(self, x):
        if isinstance(x, (str, SymBytes)):
            return in_(x, self.tostr())
        return in_(x, self.l)

    def pop(self, i=-1):
        return self.l.pop(i)

    def insert(self, i, x):
        self.l.insert(i, x)

    def reverse(self):
        self.l.reverse()

    def decode(self, *a):
        return strm(self.tostr(), 'decode', a, {})

    def __getattr__(self, n):
        if n in ('find', 'rfind', 'index', 'count', 'startswith', 'endswith', 'isdigit', 'isalpha'):
            return lambda *a: mcall(self.tostr(), n, *a)
        if n in ('replace', 'strip', 'rstrip', 'lstrip', 'upper', 'lower', 'ljust', 'rjust', 'join'):
            return lambda *a: bytearray_(mcall(self.tostr(), n, *a))
        if n in ('split', 'rsplit', 'partition', 'rpartition'):
            raise Unsupported('bytearray.' + n)
        raise AttributeError(n)

    def tostr(self):
        return mk_bytes([x if type(x) is int else sym.norm_byte(sym.low_bits(x, 8)) for x in self.l])

    def __str__(self):
        raise Unsupported('native str of bytearray')


def _nomem(*a):
    raise Unsupported('memoryview')


def _nobuiltin(n):
    def f(*a, **k):
        raise Unsupported('builtin ' + n)
    return f


def bin_(x):
    return SymText() if type(x) is SymInt else bin(x)


def oct_(x):
    if type(x) is SymInt:
        return SymText()
    return ('-' if x < 0 else '') + ('0%o' % abs(x) if x else '0')


def format_(x, spec=''):
    if type(x) in (int, str) and isinstance(spec, str):
        return format(x, spec)
    if type(x) is SymInt and spec and spec[-1] in 'xX' and spec[0] == '0':
        return fmt('%' + spec, x)
    if type(x) in ALLSYM:
        return SymText()
    raise Unsupported('format')


def vars_(*a):
    if not a:
        raise Unsupported('vars()')
    d = getattr(a[0], '__dict__', None)
    if d is None:
        raise TypeError('vars() argument must have __dict__ attribute')
    return d if isinstance(d, dict) else dict(d)


def buffer_(o, off=0, size=None):
    return o[off:] if size is None or size < 0 else o[off:off + size]


def str_b(*a):
    if a and type(a[0]) is bytearray_:
        return a[0].tostr()
    return str_(*a)


def getattr_b(o, n, *d):
    try:
        return getattr(o, n)
    except AttributeError:
        if d:
            return d[0]
        raise


class StandardError(Exception):
    pass


class std_meta(type):
    pass


def builtin_namespace(import_hook):
    ns = {}
    for n in ('abs callable hasattr setattr delattr id issubclass object property staticmethod classmethod super '
              'pow slice iter next Exception BaseException ArithmeticError AssertionError AttributeError EOFError '
              'EnvironmentError FloatingPointError IOError ImportError IndexError KeyError KeyboardInterrupt LookupError '
              'NameError NotImplementedError OSError OverflowError RuntimeError StopIteration SyntaxError SystemError '
              'SystemExit TypeError UnicodeDecodeError UnicodeEncodeError UnicodeError ValueError ZeroDivisionError '
              'UnboundLocalError ReferenceError MemoryError Warning DeprecationWarning UserWarning RuntimeWarning '
              'NotImplemented Ellipsis locals globals dir GeneratorExit IndentationError frozenset '
              '__build_class__ int float str bool list tuple dict set type isinstance complex').split():
        ns[n] = getattr(builtins, n)
    ns.update(unicode=U, long=long_, basestring=BASESTRING, file=file_, open=open_, range=range_, xrange=range_,
              len=len_, ord=ord_, chr=chr_, unichr=unichr_, repr=repr_b, hex=hex_, map=map_, filter=filter_,
              sorted=sorted_, hash=hash_, cmp=cmp_, divmod=divmod_, sum=sum_, reduce=reduce_, round=round_,
              min=min_, max=max_, any=any_, all=all_, zip=zip_, enumerate=enumerate_, reversed=reversed_,
              bytearray=bytearray_, memoryview=_nomem, buffer=buffer_, getattr=getattr_b, bytes=str, StandardError=Exception,
              apply=lambda f, a=(), k={}: call(f, *a, **k), intern=lambda s: s, coerce=None,
              __import__=import_hook, True_=True)
    for n in 'bin oct format eval execfile raw_input input compile reload exit quit'.split():
        ns[n] = _nobuiltin(n)
    ns['bin'], ns['oct'], ns['format'], ns['vars'] = bin_, oct_, format_, vars_
    return ns


BTABLE = {int: int_, float: float_, str: str_b, bool: bool_, list: list_, tuple: tuple_, dict: dict_, set: PySet,
          type: type_, isinstance: isinstance_, U: unicode_, long_: int_, frozenset: PySet}
