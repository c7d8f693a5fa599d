# Runs under Jython 2.7 against the real code. usage: jyh.py HARNESS_NAME HARNESS_PATH TIER IN.json OUT.json
# The harness API (module `h`), concrete side: inputs come from the solver's model.
import gc
import imp
import json
import random
import struct
import sys
import time as _time
import types


class AssumeFailed(BaseException):
    pass


class Stop(BaseException):
    pass


class S(object):
    pass


st = S()


def reset(inputs, seed=None):
    st.inputs = inputs
    st.rnd = random.Random(seed) if seed is not None else None
    st.filled = {}
    st.names = {}
    st.labels = {}
    st.violations = []
    st.observes = []
    st.missing = 0
    st.undo = []


def _get(name, default, more=None):
    n = st.names.get(name, 0)
    st.names[name] = n + 1
    k = name if n == 0 else '%s#%d' % (name, n)
    v = st.inputs.get(k)
    if v is None:
        st.missing += 1
        if st.rnd is not None:
            default = fill(st.rnd, default, more)
            st.filled[k] = default
        return default
    return v


def fill(rnd, default, more):
    """an arbitrary input where the recorded path has none (only for paths the engine could not follow)"""
    kind = default[0]
    if kind == 'int':
        lo, hi = more
        return ['int', str(rnd.choice([lo, hi, max(lo, min(hi, rnd.choice([0, 1, -1, 255, 256]))), rnd.randint(lo, hi)]))]
    if kind == 'bool':
        return ['bool', rnd.choice([True, False])]
    if kind == 'bytes':
        return ['bytes', ''.join(['%02x' % rnd.choice([0, 1, 32, 65, 127, 128, 255, rnd.randint(0, 255)]) for _ in range(len(default[1]) // 2)])]
    if kind == 'uni':
        lo, hi = more
        return ['uni', [rnd.choice([lo, min(hi, max(lo, 65)), min(hi, max(lo, 0x20ac))]) for _ in default[1]]]
    x = rnd.choice([0.0, 1.0, -1.0, 0.5, 1e-8, -1e-30, 1e20, rnd.uniform(-1, 1), rnd.uniform(-1000, 1000)])
    return [kind, struct.pack('>f' if kind == 'f32' else '>d', x).encode('hex')]


def int_(name, lo, hi):
    v = int(_get(name, ['int', str(lo)], (lo, hi))[1])
    return v


def bool_(name):
    return bool(_get(name, ['bool', False])[1])


def bytes_(name, n):
    return str(_get(name, ['bytes', '00' * n])[1]).decode('hex')


def unicode_(name, n, lo=0, hi=0xffff):
    return u''.join([unichr(c) for c in _get(name, ['uni', [lo] * n], (lo, hi))[1]])


def f32(name, nan=False):
    return struct.unpack('>f', ('%08x' % int(_get(name, ['f32', '0'])[1], 16)).decode('hex'))[0]


def f64(name, nan=False):
    return struct.unpack('>d', ('%016x' % int(_get(name, ['f64', '0'])[1], 16)).decode('hex'))[0]


def choice(name, options):
    opts = list(options)
    return opts[int(_get(name, ['int', '0'], (0, len(opts) - 1))[1])]


def assume(c):
    if not c:
        raise AssumeFailed()


def check(cond, label):
    st.labels[label] = st.labels.get(label, 0) + 1
    if not cond:
        st.violations.append(label)
        raise Stop()


def observe(label, v):
    st.observes.append([label, canon(v)])


def canon(v):
    if v is None or isinstance(v, bool):
        return v
    if isinstance(v, (int, long)):
        return ['i', str(int(v))]
    if isinstance(v, float):
        if v != v:
            return ['f', 'nan']
        return ['f', struct.pack('>d', v).encode('hex')]
    if isinstance(v, unicode):
        return ['u', [ord(c) for c in v]]
    if isinstance(v, str):
        return ['s', v.encode('hex')]
    if isinstance(v, (list, tuple)):
        return ['l', [canon(x) for x in v]]
    if isinstance(v, dict):
        return ['d', sorted([[canon(k), canon(x)] for k, x in v.items()], key=str)]
    return ['o', type(v).__name__]


def same_float(a, b):
    if a != a or b != b:
        return a != a and b != b
    return struct.pack('>d', a) == struct.pack('>d', b)


def eq(a, b):
    if isinstance(a, float) and isinstance(b, (float, int)) or isinstance(b, float) and isinstance(a, (float, int)):
        if isinstance(a, float) and isinstance(b, float):
            return same_float(a, b)
        return a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not eq(x, y):
                return False
        return True
    if isinstance(a, dict) and isinstance(b, dict):
        if len(a) != len(b):
            return False
        for k in a:
            if k not in b or not eq(a[k], b[k]):
                return False
        return True
    if (a is None) != (b is None):
        return False
    return bool(a == b)


def and_(*xs):
    for x in xs:
        if not x:
            return False
    return True


def or_(*xs):
    for x in xs:
        if x:
            return True
    return False


def patch(module, name, value):
    st.undo.append((module, name, getattr(module, name, None), hasattr(module, name)))
    setattr(module, name, value)


def lib(name):
    __import__(name)
    return sys.modules[name]


def patch_lib(libname, name, value):
    patch(lib(libname), name, value)


def undo():
    for m, n, v, had in reversed(st.undo):
        if had:
            setattr(m, n, v)
        else:
            delattr(m, n)
    st.undo = []


def llsd_doc(v):
    from llbase import llsd
    return llsd.format_xml(v)


TMP = []


def templfile(text):
    import os
    import tempfile
    fd, p = tempfile.mkstemp(suffix='.msg', dir=WORK)
    os.close(fd)
    f = open(p, 'wb')
    f.write(text)
    f.close()
    return open(p, 'r')


def typename(x):
    return {'int': 'int', 'long': 'int'}.get(type(x).__name__, type(x).__name__)


def is_nan(x):
    return x != x


h = types.ModuleType('h')
for n, f in dict(int=int_, bool=bool_, bytes=bytes_, unicode=unicode_, f32=f32, f64=f64, choice=choice, assume=assume, check=check,
                 observe=observe, eq=eq, and_=and_, or_=or_, not_=lambda x: not x, implies=lambda a, b: (not a) or bool(b),
                 ite=lambda c, a, b: a if c else b, same_hash=lambda a, b: hash(a) == hash(b), is_nan=is_nan,
                 realise=lambda x: x, flag=bool, patch=patch, patch_lib=patch_lib, llsd_doc=llsd_doc, lib=lib, templfile=templfile,
                 typename=typename, is_symbolic=lambda: False).items():
    setattr(h, n, f)
sys.modules['h'] = h

ev = types.ModuleType('eventlet')
for sub in ('api', 'util', 'coros'):
    m = types.ModuleType('eventlet.' + sub)
    setattr(ev, sub, m)
    sys.modules['eventlet.' + sub] = m
ev.__path__ = []
ev.api.sleep = lambda *a: None
ev.api.spawn = lambda *a, **k: None
ev.api.kill = lambda *a, **k: None
ev.util.wrap_socket_with_coroutine_socket = lambda *a: None
sys.modules['eventlet'] = ev

import logging


class Null(logging.Handler):
    def emit(self, r):
        pass


logging.getLogger().addHandler(Null())
logging.getLogger().setLevel(logging.CRITICAL + 1)


class Sink(object):
    def write(self, s):
        pass

    def flush(self):
        pass


def main():
    global WORK
    name, path, tier, inp, outp = sys.argv[1:6]
    import os
    WORK = os.path.dirname(outp)
    sys.path.insert(0, os.path.dirname(path))
    recs = json.load(open(inp))
    so, se = sys.stdout, sys.stderr
    sys.stdout = Sink()
    sys.stderr = Sink()
    out = open(outp, 'w')
    t0 = _time.time()
    limit = float(sys.argv[6]) if len(sys.argv) > 6 else 1e9
    phase = 'load'
    try:
        mod = imp.load_source(name, path)
        cases = dict([(c[0], c) for c in mod.cases(tier)])
        if hasattr(mod, 'setup'):
            reset({})
            mod.setup()
            undo()
        phase = 'run'
        for i, r in enumerate(recs):
            if _time.time() - t0 > limit:
                break
            reset(r['inputs'], r.get('fill'))
            c = cases[r['case']]
            res = {'i': i, 'status': 'ok'}
            try:
                c[1](*(c[2] if len(c) > 2 else ()))
            except AssumeFailed:
                res['status'] = 'assume'
            except Stop:
                pass
            except KeyboardInterrupt:
                raise
            except BaseException, e:
                res['status'] = 'exception'
                try:
                    res['detail'] = '%s: %s' % (type(e).__name__, str(e)[:300])
                except BaseException:
                    res['detail'] = type(e).__name__
                if os.environ.get('VERIF_TRACE'):
                    import traceback
                    res['trace'] = traceback.format_exc()
                st.violations.append('uncaught ' + type(e).__name__)
                st.labels['uncaught exception'] = 1
            except java_throwable, e:
                res['status'] = 'exception'
                res['detail'] = 'java: %s' % e.getClass().getName()
                st.violations.append('uncaught ' + str(e.getClass().getSimpleName()))
            undo()
            if 'detail' in res:
                res['detail'] = repr(res['detail'])
            res['labels'] = st.labels
            res['violations'] = st.violations
            res['observes'] = st.observes
            res['missing'] = st.missing
            if st.filled:
                res['filled'] = st.filled
            out.write(json.dumps(res) + '\n')
            out.flush()
        out.write(json.dumps({'end': True, 'cases': sorted(cases)}) + '\n')
    except BaseException, e:
        import traceback
        out.write(json.dumps({'fatal': repr(traceback.format_exc()[-3000:]).replace('\\n', '\n'), 'phase': phase}) + '\n')
    out.close()


from java.lang import Throwable as java_throwable
main()
