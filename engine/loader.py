"""Parses /repo's current sources with Jython's own parser, transforms them and imports them."""
import builtins
import json
import os
import subprocess
import sys
import types

import rt
import shims
import xform

REPO = '/repo'
HERE = os.path.dirname(os.path.abspath(__file__))
JAVA = ['/usr/bin/java', '-Xss4m', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-XX:-UsePerfData',
        '-cp', '/usr/share/java/jython.jar:/usr/share/java/xercesImpl.jar',
        '-Dpython.home=/usr/share/jython', '-Dpython.cachedir.skip=true',
        '-Dpython.path=/repo:/opt/vp/pyogp/site', 'org.python.util.jython', '-B']


def jython_env():
    e = {k: v for k, v in os.environ.items() if k not in ('JYTHONPATH', 'PYTHONPATH', 'CLASSPATH', 'JYTHON_HOME')}
    e.update(LC_ALL='C.UTF-8', PYTHONDONTWRITEBYTECODE='1')
    return e


class LoadError(Exception):
    pass


def repo_sources():
    """modname -> (path, is_package) of every non-test module of pyogp"""
    out = {}
    top = os.path.join(REPO, 'pyogp')
    for d, ds, fs in os.walk(top):
        ds[:] = sorted(x for x in ds if x not in ('tests', 'doctests', '__pycache__') and not x.startswith('.'))
        if '__init__.py' not in fs:
            ds[:] = [x for x in ds]
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            parts = os.path.relpath(p, REPO)[:-3].split(os.sep)
            pkg = parts[-1] == '__init__'
            if pkg:
                parts = parts[:-1]
            out['.'.join(parts)] = (p, pkg)
    return out


class Loader(object):
    def __init__(self, workdir):
        self.work = workdir
        self.functions = []
        self.sources = repo_sources()
        self.asts = {}
        self.modules = {}
        self.builtins = rt.builtin_namespace(self.py_import)
        rt.import_ = self.rt_import
        rt.import_from = self.rt_import_from
        rt.import_attr = self.rt_import_attr
        rt.import_star = self.rt_import_star

    def parse(self, extra):
        """extra: modname -> path (harness files)"""
        files = [p for p, _ in self.sources.values()] + list(extra.values())
        out = os.path.join(self.work, 'asts.json')
        r = subprocess.run(JAVA + [os.path.join(HERE, 'jyast.py'), out] + files, env=jython_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode != 0 or not os.path.exists(out):
            raise LoadError('jython parser failed: %s' % r.stdout.decode('utf-8', 'replace')[-2000:])
        self.asts = json.load(open(out))
        os.unlink(out)
        for m, p in extra.items():
            self.sources[m] = (p, False)

    # -- import machinery (Python 2: implicit relative imports)
    def find(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self.sources:
            return self.load(name)
        if name in shims.MODULES:
            return shims.MODULES[name]
        return shims.placeholder(name)

    def load(self, name):
        path, pkg = self.sources[name]
        if '.' in name:
            par = name.rpartition('.')[0]
            if par in self.sources:
                self.find(par)
        j = self.asts[path]
        if 'error' in j and '_' not in j:
            raise SyntaxError(j['error'])
        m = types.ModuleType(name)
        d = m.__dict__
        d['__builtins__'] = self.builtins
        d['_rt_'] = rt
        d['__file__'] = path
        d['__package__'] = name if pkg else name.rpartition('.')[0]
        if pkg:
            d['__path__'] = [os.path.dirname(path)]
        self.modules[name] = m
        tree = xform.transform(j, name, self.functions)
        code = compile(tree, path, 'exec')
        try:
            exec(code, d)
        except BaseException:
            del self.modules[name]
            raise
        if '.' in name:
            par, _, leaf = name.rpartition('.')
            if par in self.modules:
                setattr(self.modules[par], leaf, m)
        return m

    def package_of(self, modname):
        if modname in self.sources and self.sources[modname][1]:
            return modname
        return modname.rpartition('.')[0]

    def resolve(self, importer, name, level=0):
        if level and level > 0:
            pkg = self.package_of(importer)
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + '.' + name if name else pkg
            m = self.find(full)
            if m is None:
                raise ImportError('No module named ' + name)
            return m, full
        pkg = self.package_of(importer)
        if pkg:
            head = name.split('.')[0]
            if (pkg + '.' + head) in self.sources and (pkg + '.' + name) in self.sources:
                return self.find(pkg + '.' + name), pkg + '.' + name
        m = self.find(name)
        if m is None:
            raise ImportError('No module named ' + name)
        return m, name

    def rt_import(self, importer, name, asname):
        m, full = self.resolve(importer, name)
        if asname or '.' not in name:
            return m
        # bind the top package
        parts = full.split('.')
        tail = len(name.split('.')) - 1
        top = '.'.join(parts[:len(parts) - tail])
        t = self.find(top)
        return t

    def rt_import_from(self, importer, name, level):
        return self.resolve(importer, name, level)[0]

    def rt_import_attr(self, m, attr):
        if attr in m.__dict__:
            return m.__dict__[attr]
        full = m.__name__ + '.' + attr
        sub = self.find(full)
        if sub is not None:
            return sub
        if hasattr(m, attr):
            return getattr(m, attr)
        raise ImportError('cannot import name ' + attr)

    def rt_import_star(self, m, g):
        names = m.__dict__.get('__all__')
        if names is None:
            names = [n for n in m.__dict__ if not n.startswith('_')]
        for n in names:
            g[n] = m.__dict__[n]

    def py_import(self, name, *a, **k):
        m = self.find(name)
        if m is None:
            raise ImportError('No module named ' + name)
        return m
