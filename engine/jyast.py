# Run under Jython 2.7: parses Python 2 sources with Jython's own parser and writes their ASTs as JSON.
# usage: jyast.py OUT.json FILE...
import ast
import json
import re
import sys
import tokenize
from StringIO import StringIO


class Comp(Exception):
    pass


def enc(n):
    if isinstance(n, ast.AST):
        d = {'_': n.__class__.__name__}
        for f in (n._fields or ()):
            if f == 'ctx':
                continue
            d[f] = enc(getattr(n, f, None))
        ln = getattr(n, 'lineno', None)
        if ln is not None:
            d['@'] = ln
        if d['_'] == 'Str':
            s = n.s
            d['s'] = s if isinstance(s, unicode) else s.decode('latin-1')
            d['u'] = isinstance(s, unicode)
        elif d['_'] == 'Num':
            v = n.n
            if isinstance(v, (int, long)):
                d['n'] = ['i', str(v)]
            elif isinstance(v, float):
                d['n'] = ['f', repr(v)]
            else:
                d['n'] = ['c', repr(v)]
        return d
    if isinstance(n, unicode):
        return n
    if isinstance(n, str):
        return n.decode('latin-1')
    if n is None or isinstance(n, (bool, int, long, float)):
        return n
    if hasattr(n, '__iter__'):
        return [enc(x) for x in n]
    if 'Comp' in str(n):
        raise Comp(str(n))
    return str(n)


def rewrite(src):
    """{e for ...} -> set([e for ...]) and {k: v for ...} -> dict([(k, v) for ...]): Jython's ast module does not
    expose the nodes of these two forms"""
    toks = list(tokenize.generate_tokens(StringIO(src).readline))
    stack = []
    comps = []
    for i, t in enumerate(toks):
        if t[0] == tokenize.OP and t[1] in '([{':
            stack.append([t[1], i, None, None])
        elif t[0] == tokenize.OP and t[1] in ')]}':
            o = stack.pop()
            if o[0] == '{' and o[2] is not None:
                comps.append((o[1], o[2], o[3], i))
        elif stack and stack[-1][0] == '{':
            if t[1] == ':' and stack[-1][3] is None and stack[-1][2] is None:
                stack[-1][3] = i
            elif t[1] == 'for' and t[0] == tokenize.NAME and stack[-1][2] is None:
                stack[-1][2] = i
    sub = {}
    for o, f, c, e in comps:
        if c is None:
            sub.setdefault(o, []).append((0, 1, 'set(['))
            sub.setdefault(e, []).append((0, 1, '])'))
        else:
            sub.setdefault(o, []).append((0, 1, 'dict([(('))
            sub.setdefault(c, []).append((0, 1, '), ('))
            sub.setdefault(f, []).append((0, 0, ')) '))
            sub.setdefault(e, []).append((0, 1, '])'))
    lines = src.split('\n')
    edits = []
    for i, es in sub.items():
        (r, c) = toks[i][2]
        for _, n, text in es:
            edits.append((r, c, n, text))
    edits.sort(reverse=True)
    for r, c, n, text in edits:
        l = lines[r - 1]
        lines[r - 1] = l[:c] + text + l[c + n:]
    return '\n'.join(lines)


out = {}
for path in sys.argv[2:]:
    src = open(path, 'rb').read().replace('\r\n', '\n') + '\n'
    try:
        try:
            out[path] = enc(ast.parse(src, path))
        except Comp:
            out[path] = enc(ast.parse(rewrite(src), path))
    except SyntaxError, e:
        out[path] = {'error': '%s: %s' % (path, e)}
json.dump(out, open(sys.argv[1], 'w'))
