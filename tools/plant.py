"""Development tool: plants bugs in private copies and runs checks on them.

usage: plant.py SPEC.py [-j N] [--props C01,C02|all|own] [--keep] [--only ID,...]
SPEC.py defines MUTS, a list of dicts: id, prop, edits [(file below pyogp/lib/base, old, new)...], needs, breaks, demo (Python 2 text,
optional). Every bug is applied to a copy of /repo that is mounted over /repo, with a copy of /verif over /verif, in a private mount
namespace; nothing outside /tmp/plant is changed. With --keep, confirmed bugs are stored in /verif/seeded."""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

WORK = '/tmp/plant'
BASE = '005949e'
PRE = '''# Runs under Jython 2.7 with /repo and the llbase of the sandbox on its path; no network.
import sys, types
ev = types.ModuleType('eventlet')
ev.__path__ = []
for sub in ('api', 'util', 'coros'):
    m = types.ModuleType('eventlet.' + sub)
    setattr(ev, sub, m)
    sys.modules['eventlet.' + sub] = m
ev.api.sleep = lambda *a: None
ev.api.spawn = lambda *a, **k: None
ev.api.kill = lambda *a, **k: None
ev.util.wrap_socket_with_coroutine_socket = lambda *a: None
sys.modules['eventlet'] = ev
import logging
logging.getLogger().addHandler(logging.NullHandler())
logging.getLogger().setLevel(logging.CRITICAL + 1)


def check(ok, what):
    if not ok:
        print 'FAILED:', what
        sys.stdout.flush()
        import os
        os._exit(1)

'''
DEMO = '''#!/bin/bash
# exit 0: the property held in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 PYTHONDONTWRITEBYTECODE=1
unset JYTHONPATH PYTHONPATH CLASSPATH JYTHON_HOME
exec timeout 200 /usr/bin/java -Xss4m -cp /usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar \\
    -Dpython.home=/usr/share/jython -Dpython.cachedir.skip=true -Dpython.path=/repo:/opt/vp/pyogp/site \\
    org.python.util.jython -B "$here/demo.py"
'''


def sh(cmd, **k):
    p = subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def ns(repo, verif, cmd, timeout=1000):
    """runs cmd with repo over /repo and verif over /verif"""
    m = 'mount --bind %s /repo && ' % repo
    if verif:
        m += 'mount --bind %s /verif && ' % verif
    try:
        return sh(['unshare', '-Urm', 'bash', '-c', m + cmd], timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, 'timeout'


def one(m, props, demo_only):
    d = os.path.join(WORK, m['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = {'id': m['id'], 'prop': m['prop']}
    r = os.path.join(d, 'repo')
    sh(['cp', '-a', '/repo', r])
    for f, old, new in m['edits']:
        p = os.path.join(r, 'pyogp/lib/base', f)
        s = open(p, newline='').read()
        crlf = '\r\n' in s
        if crlf:
            s = s.replace('\r\n', '\n')
        if s.count(old) != 1:
            out['error'] = '%s: text occurs %d times: %s' % (f, s.count(old), old[:60])
            return out
        s = s.replace(old, new)
        if crlf:
            s = s.replace('\n', '\r\n')
        open(p, 'w', newline='').write(s)
    rc, diff = sh('git -C %s diff' % r)
    raw = subprocess.run('git -C %s diff' % r, shell=True, stdout=subprocess.PIPE).stdout
    open(os.path.join(d, 'patch.diff'), 'wb').write(raw)
    # removed lines have to be original ones
    fs = subprocess.run('git -C %s diff --name-only' % r, shell=True, stdout=subprocess.PIPE).stdout.decode().split()
    orig = set()
    for f in fs:
        b = subprocess.run('git -C %s show %s:%s' % (r, BASE, f), shell=True, stdout=subprocess.PIPE).stdout.decode('latin-1')
        orig.update(l.strip() for l in b.splitlines())
    rem = [l[1:].strip() for l in raw.decode('latin-1').splitlines() if l.startswith('-') and not l.startswith('---')]
    out['orig'] = 'all' if all(l in orig for l in rem) and rem else 'none!' if not any(l in orig for l in rem) else 'some!'
    rc, o = ns(r, None, 'bash /opt/vp/build.sh')
    out['build'] = rc
    if m.get('demo'):
        open(os.path.join(d, 'demo.py'), 'w').write(PRE + m['demo'].strip('\n') + '\n')
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': m['prop'], 'needs': m['needs'], 'what_it_breaks': m['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc0, o0 = sh('cd /repo && bash %s/demo.sh' % d)
        rc1, o1 = ns(r, None, 'cd /repo && bash %s/demo.sh' % d)
        out['demo'] = 'ok' if rc0 == 0 and rc1 != 0 and rc1 != 124 else 'BAD base=%d mutant=%d %s %s' % (rc0, rc1, o0[-300:], o1[-300:])
        out['demo_says'] = o1.strip().split('\n')[-1][:150]
    ns(r, None, 'bash /opt/vp/test.sh %s/t.json' % d)
    try:
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = json.load(open(d + '/t.json'))['passed']
        bad = [t for t in stable if t not in passed]
        out['tests'] = 'ok' if not bad else 'BREAKS %s' % bad[:2]
    except Exception as e:
        out['tests'] = 'ERROR %s' % e
    if not demo_only:
        v = os.path.join(d, 'verif')
        os.makedirs(v)
        sh('cp -a /verif/check /verif/engine /verif/harness /verif/known-findings.jsonl %s/; mkdir %s/out %s/evidence' % (v, v, v))
        ps = [m['prop']] if props == 'own' else props
        out['checks'] = {}
        for p in ps:
            rc, o = ns(r, v, 'cd /verif && ./check %s quick' % p)
            last = [l for l in o.split('\n') if l.startswith(('counterexample', 'INCOMPLETE', 'ERROR'))]
            out['checks'][p] = rc
            if 'pass-incomplete' in o:
                out.setdefault('incomplete', {})[p] = [l for l in o.split('\n') if l.startswith('INCOMPLETE')][:1]
            if rc == 1:
                out.setdefault('how', {})[p] = (last or [''])[0][:260]
            elif p == m['prop'] or rc != 0:
                out.setdefault('log', {})[p] = (' | '.join(last)[:600], o.strip().split('\n')[-1][:300])
    return out


def main():
    ns_ = {}
    exec(open(sys.argv[1]).read(), ns_)
    muts = ns_['MUTS']
    a = sys.argv
    j = int(a[a.index('-j') + 1]) if '-j' in a else 3
    if '--only' in a:
        only = a[a.index('--only') + 1].split(',')
        muts = [m for m in muts if m['id'] in only]
    props = 'own'
    if '--props' in a:
        props = a[a.index('--props') + 1]
        if props == 'all':
            props = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
        elif props != 'own':
            props = props.split(',')
    with ThreadPoolExecutor(j) as ex:
        for m, o in zip(muts, ex.map(lambda m: one(m, props, '--demo-only' in a), muts)):
            good = o.get('demo') == 'ok' and o.get('tests') == 'ok' and o.get('build') == 0 and o.get('orig') == 'all'
            caught = [p for p, rc in o.get('checks', {}).items() if rc == 1]
            print('%s %s caught by %s %s' % (o['id'], 'VALID' if good else 'invalid', ','.join(caught) or 'NOBODY',
                                             json.dumps({k: v for k, v in o.items() if k not in ('id',)})), flush=True)
            d = os.path.join(WORK, o['id'])
            if good and '--keep' in a:
                t = '/verif/seeded/' + o['id']
                shutil.rmtree(t, ignore_errors=True)
                os.makedirs(t)
                for f in ('patch.diff', 'demo.sh', 'demo.py', 'meta.json'):
                    shutil.copy(os.path.join(d, f), t)
            shutil.rmtree(d, ignore_errors=True)


main()
