"""Symbolic values and the path context (z3)."""
import time
import z3

z3.set_param('smt.random_seed', 1)


class EngineStop(BaseException):
    """control-flow exceptions of the engine: never caught by code under test"""


class Unsupported(EngineStop):
    pass


class AssumeFailed(EngineStop):
    pass


class Budget(EngineStop):
    pass


class Inconclusive(EngineStop):
    pass


RLIMIT_BRANCH = 40000000
RLIMIT_CHECK = 400000000


class Ctx(object):
    """One path: path condition in `solver`, `model` satisfies it, forking is delegated to `forker`."""

    def __init__(self, forker=None):
        self.forker = forker
        self.solver = z3.Solver()
        self.model = None
        self.inputs = []            # (name, kind, value)
        self.names = {}
        self.queries = 0
        self.solver_s = 0.0
        self.decisions = 0
        self.unknowns = 0
        self.npc = 0
        self.known = {}
        self.keep = []
        self.checks_sent = 0
        self.checks_concrete = 0
        self.steps = 0
        self.fresh = 0
        self.rl_branch = RLIMIT_BRANCH
        self.rl_check = RLIMIT_CHECK
        self.fp = False             # some value went through floating-point arithmetic
        self.fp_timeout = 60000
        self.log_checks = None      # list of sampled smt2 queries (thorough tier)

    # -- solver access
    def _check(self, extra, rl, label=''):
        t = time.time()
        smt = None
        r = z3.unknown
        m = None
        if self.fp:
            # floating-point arithmetic: eager bit-blasting is far faster than the incremental core
            r, m = self._tactic(extra, rl)
        if r == z3.unknown:
            self.solver.push()
            for x in extra:
                self.solver.add(x)
            self.solver.set('rlimit', rl)
            if self.fp:
                self.solver.set('timeout', 20000)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
            self.solver.pop()
        if r == z3.unknown and not self.fp:
            r, m = self._tactic(extra, rl)
        if self.log_checks is not None and label:
            self.solver.push()
            for x in extra:
                self.solver.add(x)
            smt = self.solver.to_smt2()
            self.solver.pop()
        self.queries += 1
        self.solver_s += time.time() - t
        if smt is not None:
            self.log_checks.append((label, smt, str(r)))
        return r, m

    def _tactic(self, extra, rl):
        s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'fpa2bv', 'simplify', 'bit-blast', 'sat').solver()
        s.set('timeout', self.fp_timeout)
        s.add(self.solver.assertions())
        for x in extra:
            s.add(x)
        try:
            r = s.check()
            return r, (s.model() if r == z3.sat else None)
        except z3.Z3Exception:
            return z3.unknown, None

    def add(self, c):
        self.solver.add(c)
        self.npc += 1

    def holds(self, c):
        """value of c under the current model"""
        if self.model is None:
            r, m = self._check([], self.rl_branch)
            if r != z3.sat:
                raise Inconclusive('no model for the path condition: %s' % r)
            self.model = m
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        v = z3.simplify(v)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        raise Inconclusive('model does not evaluate %s' % v)

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        if k in self.known:
            return self.known[k][1]
        v = self.holds(c)
        nc = z3.Not(c)
        alt = nc if v else c
        r, m = self._check([alt], self.rl_branch)
        self.decisions += 1
        if r == z3.unknown:
            self.unknowns += 1
            raise Inconclusive('branch feasibility unknown')
        if r == z3.sat:
            if self.forker.fork(self):
                # child: the other side
                v = not v
                self.model = m
            self.add(c if v else nc)
        self.known[k] = (c, v)
        return v

    def choose(self, conds):
        """n-way decision over mutually exclusive, jointly exhaustive conditions; returns an index"""
        conds = [z3.simplify(c) for c in conds]
        for i, c in enumerate(conds):
            if z3.is_true(c):
                return i
        cur = None
        others = []
        for i, c in enumerate(conds):
            if z3.is_false(c):
                continue
            if cur is None and self.holds(c):
                cur = i
            else:
                others.append(i)
        if cur is None:
            raise Inconclusive('choose: no alternative holds')
        self.decisions += 1
        forked = False
        for i in others:
            r, m = self._check([conds[i]], self.rl_branch)
            if r == z3.unknown:
                self.unknowns += 1
                raise Inconclusive('branch feasibility unknown')
            if r == z3.sat:
                forked = True
                if self.forker.fork(self):
                    self.model = m
                    self.add(conds[i])
                    return i
        if forked:
            self.add(conds[cur])
        return cur

    def concretise(self, e, limit=600):
        """decide the value of a bit-vector expression: one path per feasible value"""
        e = z3.simplify(e)
        if z3.is_bv_value(e):
            return e.as_signed_long()
        if self.model is None:
            self.holds(z3.BoolVal(True))
        v0 = self.model.eval(e, model_completion=True)
        if not z3.is_bv_value(v0):
            v0 = z3.simplify(v0)
        seen = [v0]
        self.decisions += 1
        while True:
            r, m = self._check([z3.And(*[e != v for v in seen])], self.rl_branch)
            if r == z3.unknown:
                self.unknowns += 1
                raise Inconclusive('value enumeration unknown')
            if r == z3.unsat:
                break
            if len(seen) >= limit:
                raise Unsupported('value with more than %d possibilities used where a concrete one is needed' % limit)
            v = m.eval(e, model_completion=True)
            seen.append(v)
            if self.forker.fork(self):
                self.model = m
                self.add(e == v)
                return v.as_signed_long()
        if len(seen) > 1:
            self.add(e == v0)
        return v0.as_signed_long()

    def assume(self, c):
        if isinstance(c, SymBool):
            c = c.c
        elif not z3.is_expr(c):
            if not c:
                raise AssumeFailed()
            return
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise AssumeFailed()
        ok = self.model is not None and self.holds(c)
        self.add(c)
        if not ok:
            r, m = self._check([], self.rl_branch)
            if r == z3.unsat:
                raise AssumeFailed()
            if r == z3.unknown:
                raise Inconclusive('assumption unknown')
            self.model = m

    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else '%s#%d' % (base, n)


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def bits_for(lo, hi):
    """width of the smallest two's complement representation of every value in [lo, hi]"""
    a = hi.bit_length() if hi >= 0 else (~hi).bit_length()
    b = lo.bit_length() if lo >= 0 else (~lo).bit_length()
    return max(a, b) + 1


def resize(e, w):
    k = e.size()
    if k == w:
        return e
    if k < w:
        return z3.SignExt(w - k, e)
    return z3.Extract(w - 1, 0, e)


def mk_int(e, lo, hi):
    if lo == hi:
        return lo
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def mk_bool(c):
    if z3.is_true(c):
        return True
    if z3.is_false(c):
        return False
    return SymBool(c)


def lift(x):
    """(expr, lo, hi) of an integer-like value, or None"""
    t = type(x)
    if t is SymInt:
        return x.e, x.lo, x.hi
    if t is int:
        return z3.BitVecVal(x, bits_for(x, x)), x, x
    if t is bool:
        return z3.BitVecVal(int(x), 2), int(x), int(x)
    if t is SymBool:
        return z3.If(x.c, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1
    return None


def pow2(n):
    return n > 0 and n & (n - 1) == 0


class SymBool(object):
    __slots__ = ('c',)

    def __init__(self, c):
        self.c = c

    def __bool__(self):
        return CTX.decide(self.c)

    def __index__(self):
        return 1 if CTX.decide(self.c) else 0

    __int__ = __index__

    def __eq__(self, o):
        if type(o) is bool:
            return self if o else mk_bool(z3.simplify(z3.Not(self.c)))
        if type(o) is SymBool:
            return mk_bool(self.c == o.c)
        if type(o) in (int, SymInt):
            return mk_int(*lift(self)) == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        raise Unsupported('hash of SymBool')

    def __and__(self, o):
        if type(o) in (bool, SymBool):
            return and_(self, o)
        return mk_int(*lift(self)) & o

    __rand__ = __and__

    def __or__(self, o):
        if type(o) in (bool, SymBool):
            return or_(self, o)
        return mk_int(*lift(self)) | o

    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is bool:
            return not_(self) if o else self
        if type(o) is SymBool:
            return mk_bool(z3.Xor(self.c, o.c))
        return mk_int(*lift(self)) ^ o

    __rxor__ = __xor__

    def __repr__(self):
        raise Unsupported('repr of SymBool')

    __str__ = __repr__


def _arith_bool(name):
    def f(self, *a):
        return getattr(SymInt(*lift(self)), name)(*a)
    return f


for _n in ('__add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __lt__ __le__ __gt__ __ge__ __neg__ '
           '__lshift__ __rshift__ __mod__ __floordiv__').split():
    setattr(SymBool, _n, _arith_bool(_n))


def zb(x):
    """z3 Bool of a bool-like"""
    if type(x) is SymBool:
        return x.c
    if isinstance(x, SymInt):
        return x.e != 0
    return z3.BoolVal(bool(x))


def not_(x):
    if type(x) is SymBool:
        return mk_bool(z3.simplify(z3.Not(x.c)))
    return not x


def and_(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.c)
        elif not x:
            return False
    if not out:
        return True
    return mk_bool(z3.And(*out)) if len(out) > 1 else SymBool(out[0])


def or_(*xs):
    out = []
    for x in xs:
        if type(x) is SymBool:
            out.append(x.c)
        elif x:
            return True
    if not out:
        return False
    return mk_bool(z3.Or(*out)) if len(out) > 1 else SymBool(out[0])


class SymInt(object):
    """exact mathematical integer: signed bit-vector wide enough for its tracked range [lo, hi]"""
    __slots__ = ('e', 'lo', 'hi')

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi

    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return CTX.decide(self.e != 0)

    def __index__(self):
        return CTX.concretise(self.e)

    __int__ = __index__

    def __hash__(self):
        raise Unsupported('hash of SymInt')

    def __repr__(self):
        raise Unsupported('repr of SymInt')

    __str__ = __repr__

    def __float__(self):
        raise Unsupported('native float() of SymInt')

    def _bin(self, o, f, rng):
        L = lift(o)
        if L is None:
            return NotImplemented
        lo, hi = rng(self.lo, self.hi, L[1], L[2])
        w = bits_for(lo, hi)
        return mk_int(f(resize(self.e, w), resize(L[0], w)), lo, hi)

    def __add__(self, o):
        if isinstance(o, (float, SymFloat)):
            return to_float(self) + o
        return self._bin(o, lambda a, b: a + b, lambda a, b, c, d: (a + c, b + d))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, (float, SymFloat)):
            return to_float(self) - o
        return self._bin(o, lambda a, b: a - b, lambda a, b, c, d: (a - d, b - c))

    def __rsub__(self, o):
        if isinstance(o, (float, SymFloat)):
            return to_float(o) - to_float(self)
        return self._bin(o, lambda a, b: b - a, lambda a, b, c, d: (c - b, d - a))

    def __mul__(self, o):
        if isinstance(o, (float, SymFloat)):
            return to_float(self) * o
        if isinstance(o, (str, list, tuple, SymBytes)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b,
                         lambda a, b, c, d: (min(a * c, a * d, b * c, b * d), max(a * c, a * d, b * c, b * d)))

    __rmul__ = __mul__

    def __neg__(self):
        return 0 - self

    def __pos__(self):
        return self

    def __invert__(self):
        return -1 - self

    def __abs__(self):
        if self.lo >= 0:
            return self
        hi = max(abs(self.lo), abs(self.hi))
        w = bits_for(-hi, hi)
        e = resize(self.e, w)
        return mk_int(z3.If(e < 0, -e, e), 0, hi)

    def _bitop(self, o, f, kind):
        L = lift(o)
        if L is None:
            return NotImplemented
        w = max(self.e.size(), L[0].size())
        e = f(resize(self.e, w), resize(L[0], w))
        if self.lo >= 0 and L[1] >= 0:
            if kind == 'and':
                lo, hi = 0, min(self.hi, L[2])
            else:
                lo, hi = 0, (1 << max(self.hi.bit_length(), L[2].bit_length())) - 1
        elif kind == 'and' and (self.lo >= 0 or L[1] >= 0):
            lo, hi = 0, self.hi if self.lo >= 0 else L[2]
        else:
            m = max(bits_for(self.lo, self.hi), bits_for(L[1], L[2]))
            lo, hi = -(1 << (m - 1)), (1 << (m - 1)) - 1
        return mk_int(resize(e, bits_for(lo, hi)), lo, hi)

    def __and__(self, o):
        return self._bitop(o, lambda a, b: a & b, 'and')

    __rand__ = __and__

    def __or__(self, o):
        return self._bitop(o, lambda a, b: a | b, 'or')

    __ror__ = __or__

    def __xor__(self, o):
        return self._bitop(o, lambda a, b: a ^ b, 'xor')

    __rxor__ = __xor__

    def __lshift__(self, o):
        if not isinstance(o, int):
            o = o.__index__()
        if o < 0:
            raise ValueError('negative shift count')
        lo, hi = self.lo << o, self.hi << o
        w = bits_for(lo, hi)
        return mk_int(resize(self.e, w) << o, lo, hi)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rshift__(self, o):
        if not isinstance(o, int):
            o = o.__index__()
        if o < 0:
            raise ValueError('negative shift count')
        lo, hi = self.lo >> o, self.hi >> o
        if lo == hi:
            return lo
        w = self.e.size()
        return mk_int(resize(z3.Extract(w - 1, min(o, w - 1), self.e), bits_for(lo, hi)), lo, hi)

    def bit_length(self):
        m = lift(abs(self))
        top = m[2].bit_length()
        w = bits_for(0, max(top, 1))
        n = z3.BitVecVal(0, w)
        for k in range(top):
            n = z3.If(m[0] >= z3.BitVecVal(1 << k, m[0].size()), z3.BitVecVal(k + 1, w), n)
        return mk_int(n, 0, top)

    def __rrshift__(self, o):
        return o >> self.__index__()

    def _divmod(self, o):
        """(quotient, remainder), floor semantics; o int or SymInt"""
        L = lift(o)
        if L is None:
            return NotImplemented
        if type(o) is SymInt:
            if o.lo <= 0 <= o.hi and CTX.decide(o.e == 0):
                raise ZeroDivisionError('integer division or modulo by zero')
        elif o == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        if type(o) is int and pow2(o):
            k = o.bit_length() - 1
            return self >> k, self & (o - 1)
        w = max(self.e.size(), L[0].size()) + 1
        a, b = resize(self.e, w), resize(L[0], w)
        if self.lo >= 0 and L[1] >= 0:
            q, r = z3.UDiv(a, b), z3.URem(a, b)
            return (mk_int(resize(q, bits_for(0, self.hi)), 0, self.hi),
                    mk_int(resize(r, bits_for(0, max(L[2] - 1, 0))), 0, max(L[2] - 1, 0)))
        q0 = a / b
        r0 = z3.SRem(a, b)
        adj = z3.And(r0 != 0, (r0 < 0) != (b < 0))
        one = z3.BitVecVal(1, w)
        q = z3.If(adj, q0 - one, q0)
        r = z3.If(adj, r0 + b, r0)
        m = max(abs(self.lo), abs(self.hi))
        d = max(abs(L[1]), abs(L[2]))
        return (mk_int(resize(q, bits_for(-m - 1, m + 1)), -m - 1, m + 1),
                mk_int(resize(r, bits_for(-d, d)), -d, d))

    def __floordiv__(self, o):
        if isinstance(o, (float, SymFloat)):
            raise Unsupported('floor division by float')
        r = self._divmod(o)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        if isinstance(o, (float, SymFloat)):
            raise Unsupported('modulo by float')
        r = self._divmod(o)
        return r if r is NotImplemented else r[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def __rfloordiv__(self, o):
        L = lift(o)
        return NotImplemented if L is None else SymInt(*L)._divmod(self)[0]

    def __rmod__(self, o):
        L = lift(o)
        return NotImplemented if L is None else SymInt(*L)._divmod(self)[1]

    def __rdivmod__(self, o):
        L = lift(o)
        return NotImplemented if L is None else SymInt(*L)._divmod(self)

    def __pow__(self, o):
        if type(o) is int and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = self * r
            return r
        raise Unsupported('power of SymInt')

    def __rpow__(self, o):
        return o ** self.__index__()

    def __truediv__(self, o):
        raise Unsupported('untransformed division')

    __rtruediv__ = __truediv__

    def _cmp(self, o, f, decided):
        if isinstance(o, (float, SymFloat)):
            return f(to_float(self), o if isinstance(o, SymFloat) else to_float(o))
        L = lift(o)
        if L is None:
            return NotImplemented
        d = decided(self.lo, self.hi, L[1], L[2])
        if d is not None:
            return d
        w = max(self.e.size(), L[0].size())
        return mk_bool(z3.simplify(f(resize(self.e, w), resize(L[0], w))))

    def __eq__(self, o):
        if lift(o) is None and not isinstance(o, (float, SymFloat)):
            return False if not hasattr(type(o), '_symcmp_') else NotImplemented
        return self._cmp(o, lambda a, b: a == b, lambda a, b, c, d: False if b < c or d < a else None)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda a, b, c, d: True if b < c else False if a >= d else None)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda a, b, c, d: True if b <= c else False if a > d else None)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda a, b, c, d: True if a > d else False if b <= c else None)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda a, b, c, d: True if a >= d else False if b < c else None)


def int_in(x, lo, hi):
    """bool-like: lo <= x <= hi"""
    return and_(x >= lo, x <= hi)


def low_bits(x, n):
    """n-bit vector of the two's complement of an integer-like"""
    e = lift(x)[0]
    return resize(e, n)


# ---------------------------------------------------------------- byte strings

def mk_bytes(bs):
    bs = tuple(bs)
    for b in bs:
        if type(b) is not int:
            return SymBytes(bs)
    return ''.join(map(chr, bs))


def norm_byte(e):
    if type(e) is int:
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def tobytes(x):
    """tuple of int | BV8 of a str-like, or None"""
    if type(x) is SymBytes:
        return x.b
    if isinstance(x, str):
        return tuple(map(ord, x))
    return None


def beq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if type(a) is int:
        a, b = b, a
    if type(b) is int:
        return z3.simplify(a == z3.BitVecVal(b, 8))
    if a is b or a.eq(b):
        return True
    return z3.simplify(a == b)


def bytes_eq(a, b):
    """bool-like equality of two byte tuples"""
    if len(a) != len(b):
        return False
    out = []
    for x, y in zip(a, b):
        c = beq(x, y)
        if c is False or (c is not True and z3.is_false(c)):
            return False
        if c is True or z3.is_true(c):
            continue
        out.append(c)
    if not out:
        return True
    return SymBool(z3.And(*out) if len(out) > 1 else out[0])


def bv8(b):
    return z3.BitVecVal(b, 8) if type(b) is int else b


def bconcat(bs):
    bs = [bv8(b) for b in bs]
    return bs[0] if len(bs) == 1 else z3.Concat(*bs)


def idx(i, n, what='index'):
    return i if isinstance(i, int) else i.__index__()


def clamp_slice_index(i, n):
    """concrete slice bound equivalent to i for a sequence of length n (forks on the relevant values only)"""
    if type(i) is not SymInt:
        return i if isinstance(i, int) else i.__index__()
    if i.hi - i.lo <= 64 and i.lo >= 0 and i.hi <= n:
        return i.__index__()
    conds, vals = [], []
    if i.hi >= n:
        conds.append(zb(i >= n))
        vals.append(n)
    if i.lo <= -n - 1:
        conds.append(zb(i <= -n - 1))
        vals.append(-n - 1)
    for k in range(max(-n, i.lo), min(n - 1, i.hi) + 1):
        conds.append(zb(i == k))
        vals.append(k)
    return vals[CTX.choose(conds)]


class SymBytes(object):
    """a Python 2 str of concrete length whose bytes may be symbolic"""
    __slots__ = ('b',)
    _symcmp_ = True

    def __init__(self, b):
        self.b = b

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return len(self.b) > 0

    def __iter__(self):
        for x in self.b:
            yield chr(x) if type(x) is int else SymBytes((x,))

    def __getitem__(self, i):
        n = len(self.b)
        if isinstance(i, slice):
            a = None if i.start is None else clamp_slice_index(i.start, n)
            z = None if i.stop is None else clamp_slice_index(i.stop, n)
            return mk_bytes(self.b[a:z:i.step])
        if type(i) is SymInt:
            if CTX.decide(zb(or_(i >= n, i < -n))):
                raise IndexError('string index out of range')
            i = i.__index__()
        if not isinstance(i, int):
            raise TypeError('string indices must be integers')
        if i >= n or i < -n:
            raise IndexError('string index out of range')
        return mk_bytes((self.b[i],))

    def __add__(self, o):
        t = tobytes(o)
        if t is None:
            if type(o) is SymText:
                return SymText()
            if hasattr(type(o), '__radd__'):
                return NotImplemented
            raise TypeError("cannot concatenate 'str' and '%s' objects" % type(o).__name__)
        return mk_bytes(self.b + t)

    def __radd__(self, o):
        t = tobytes(o)
        if t is None:
            raise TypeError("cannot concatenate '%s' and 'str' objects" % type(o).__name__)
        return mk_bytes(t + self.b)

    def __mul__(self, n):
        if type(n) is SymInt:
            n = n.__index__()
        if not isinstance(n, int):
            raise TypeError("can't multiply sequence by non-int")
        return mk_bytes(self.b * n)

    __rmul__ = __mul__

    def __eq__(self, o):
        t = tobytes(o)
        if t is None:
            return False
        return bytes_eq(self.b, t)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __lt__(self, o):
        return self._order(o, False)

    def __le__(self, o):
        return self._order(o, True)

    def __gt__(self, o):
        return not_(self._order(o, True))

    def __ge__(self, o):
        return not_(self._order(o, False))

    def _order(self, o, eq):
        t = tobytes(o)
        if t is None:
            raise Unsupported('ordering of SymBytes and %s' % type(o).__name__)
        r = (len(self.b) < len(t)) or (eq and len(self.b) == len(t))
        for x, y in reversed(list(zip(self.b, t))):
            if type(x) is int and type(y) is int:
                if x != y:
                    r = x < y
                continue
            x, y = bv8(x), bv8(y)
            r = mk_bool(z3.simplify(z3.Or(z3.ULT(x, y), z3.And(x == y, zb(r)))))
        return r

    def __hash__(self):
        raise Unsupported('hash of SymBytes')

    def __repr__(self):
        raise Unsupported('repr of SymBytes')

    __str__ = __repr__

    def __contains__(self, o):
        return bool(contains_bytes(self.b, o))


def contains_bytes(b, o):
    t = tobytes(o)
    if t is None:
        raise TypeError("'in <string>' requires string as left operand")
    return or_(*[bytes_eq(b[i:i + len(t)], t) for i in range(len(b) - len(t) + 1)])


class SymText(object):
    """text whose content is not modelled (formatted output of symbolic values); may only be logged"""
    __slots__ = ()
    _symcmp_ = True

    def __add__(self, o):
        return self

    __radd__ = __add__

    def __mod__(self, o):
        return self

    def _no(self, *a, **k):
        raise Unsupported('content of formatted text (SymText) inspected')

    __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __len__ = __iter__ = __bool__ = __getitem__ = _no
    __contains__ = __hash__ = __repr__ = __str__ = _no


# ---------------------------------------------------------------- floats

F32 = z3.Float32()
F64 = z3.Float64()
RNE = z3.RNE()


class SymFloat(object):
    """a Python float. src: None, ('f32', BV32) (exact widening of that single) or ('f64', BV64)"""
    __slots__ = ('_e', 'src')
    _symcmp_ = True

    def __init__(self, e=None, src=None):
        self._e = e
        self.src = src

    @property
    def e(self):
        if self._e is None:
            k, b = self.src
            if k == 'f32':
                self._e = z3.fpFPToFP(RNE, z3.fpBVToFP(b, F32), F64)
            else:
                self._e = z3.fpBVToFP(b, F64)
            if CTX is not None and not z3.is_bv_value(b):
                CTX.fp = True
        return self._e

    def _op(self, o, f):
        o = to_float(o)
        if o is None:
            return NotImplemented
        return mk_float(f(self.e, o.e))

    def __add__(self, o):
        return self._op(o, lambda a, b: z3.fpAdd(RNE, a, b))

    def __radd__(self, o):
        return self._op(o, lambda a, b: z3.fpAdd(RNE, b, a))

    def __sub__(self, o):
        return self._op(o, lambda a, b: z3.fpSub(RNE, a, b))

    def __rsub__(self, o):
        return self._op(o, lambda a, b: z3.fpSub(RNE, b, a))

    def __mul__(self, o):
        return self._op(o, lambda a, b: z3.fpMul(RNE, a, b))

    def __rmul__(self, o):
        return self._op(o, lambda a, b: z3.fpMul(RNE, b, a))

    def div(self, o):
        o = to_float(o)
        if CTX.decide(z3.fpIsZero(o.e)):
            raise ZeroDivisionError('float division by zero')
        return mk_float(z3.fpDiv(RNE, self.e, o.e))

    def __truediv__(self, o):
        if to_float(o) is None:
            return NotImplemented
        return self.div(o)

    def __rtruediv__(self, o):
        o = to_float(o)
        if o is None:
            return NotImplemented
        return o.div(self)

    def __neg__(self):
        if self.src:
            k, b = self.src
            w = b.size()
            return SymFloat(None, (k, z3.simplify(b ^ z3.BitVecVal(1 << (w - 1), w))))
        return mk_float(z3.fpNeg(self.e))

    def __pos__(self):
        return self

    def __abs__(self):
        if self.src:
            k, b = self.src
            w = b.size()
            return SymFloat(None, (k, z3.simplify(b & z3.BitVecVal((1 << (w - 1)) - 1, w))))
        return mk_float(z3.fpAbs(self.e))

    def __bool__(self):
        return CTX.decide(z3.Not(self.is_zero()))

    def is_zero(self):
        if self.src:
            k, b = self.src
            w = b.size()
            return z3.Extract(w - 2, 0, b) == 0
        return z3.fpIsZero(self.e)

    def is_nan(self):
        if self.src:
            k, b = self.src
            w = b.size()
            inf = (0xff << 23) if w == 32 else (0x7ff << 52)
            return z3.UGT(z3.Extract(w - 2, 0, b), z3.BitVecVal(inf, w - 1))
        return z3.fpIsNaN(self.e)

    def _cmp(self, o, f, zf=None):
        if o is None or isinstance(o, (str, list, tuple, dict)):
            return NotImplemented
        o2 = to_float(o)
        if o2 is None:
            return NotImplemented
        if zf and self.src and type(o) in (int, float) and o == 0:
            k, b = self.src
            w = b.size()
            neg = z3.Extract(w - 1, w - 1, b) == 1
            return mk_bool(z3.simplify(zf(neg, self.is_zero(), self.is_nan())))
        return mk_bool(z3.simplify(f(self.e, o2.e)))

    def __eq__(self, o):
        r = self._cmp(o, z3.fpEQ, lambda n, z, nan: z)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __lt__(self, o):
        return self._cmp(o, z3.fpLT, lambda n, z, nan: z3.And(n, z3.Not(z), z3.Not(nan)))

    def __le__(self, o):
        return self._cmp(o, z3.fpLEQ, lambda n, z, nan: z3.And(z3.Or(n, z), z3.Not(nan)))

    def __gt__(self, o):
        return self._cmp(o, z3.fpGT, lambda n, z, nan: z3.And(z3.Not(n), z3.Not(z), z3.Not(nan)))

    def __ge__(self, o):
        return self._cmp(o, z3.fpGEQ, lambda n, z, nan: z3.And(z3.Or(z3.Not(n), z), z3.Not(nan)))

    def __hash__(self):
        raise Unsupported('hash of SymFloat')

    def __repr__(self):
        raise Unsupported('repr of SymFloat')

    __str__ = __repr__

    def __float__(self):
        raise Unsupported('native float() of SymFloat')

    def __int__(self):
        raise Unsupported('int() of SymFloat')


def mk_float(e):
    e = z3.simplify(e)
    if z3.is_fp_value(e):
        import struct
        bv = z3.simplify(z3.fpToIEEEBV(e))
        if e.isNaN():
            return float('nan')
        return struct.unpack('>d', bv.as_long().to_bytes(8, 'big'))[0]
    CTX.fp = True
    return SymFloat(e)


def fpval(x):
    import struct
    b = int.from_bytes(struct.pack('>d', x), 'big')
    return z3.simplify(z3.fpBVToFP(z3.BitVecVal(b, 64), F64))


def to_float(x):
    t = type(x)
    if t is SymFloat:
        return x
    if t is float:
        import struct
        b = int.from_bytes(struct.pack('>d', x), 'big')
        return SymFloat(fpval(x), ('f64', z3.BitVecVal(b, 64)))
    if t in (int, bool):
        return to_float(float(x))
    if t is SymInt:
        CTX.fp = True
        return SymFloat(z3.fpSignedToFP(RNE, x.e, F64))
    if t is SymBool:
        return to_float(SymInt(*lift(x)))
    return None


def float_bits64(x):
    """BV64 of the IEEE double (NaN canonical 0x7ff8...)"""
    x = to_float(x)
    nan = z3.BitVecVal(0x7ff8000000000000, 64)
    if x.src and x.src[0] == 'f64':
        b = x.src[1]
        return z3.simplify(z3.If(x.is_nan(), nan, b))
    return z3.simplify(z3.If(x.is_nan(), nan, z3.fpToIEEEBV(x.e)))


def float_bits32(x):
    """BV32 of the nearest single (NaN canonical 0x7fc00000), as the Java cast (float)x"""
    x = to_float(x)
    nan = z3.BitVecVal(0x7fc00000, 32)
    if x.src and x.src[0] == 'f32':
        return z3.simplify(z3.If(x.is_nan(), nan, x.src[1]))
    if x.src and z3.is_bv_value(x.src[1]):
        return z3.simplify(z3.If(x.is_nan(), nan, z3.fpToIEEEBV(z3.fpFPToFP(RNE, x.e, F32))))
    return z3.If(x.is_nan(), nan, z3.fpToIEEEBV(z3.fpFPToFP(RNE, x.e, F32)))


def same_float(a, b):
    """bool-like: identical doubles (same bits, all NaNs alike)"""
    a, b = to_float(a), to_float(b)
    if a.src and b.src and a.src[0] == b.src[0]:
        if a.src[0] == 'f32':
            return mk_bool(z3.simplify(float_bits32(a) == float_bits32(b)))
        return mk_bool(z3.simplify(float_bits64(a) == float_bits64(b)))
    return mk_bool(z3.simplify(a.e == b.e))


SYM = (SymInt, SymBool, SymBytes, SymFloat, SymText)
