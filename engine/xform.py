"""Python 2 AST (JSON, produced by Jython's own parser) -> Python 3 ast, with every operation whose
meaning differs between Python 2 and 3, or that may meet a symbolic value in native code, routed
through the runtime (engine/rt.py, bound to the global name `_rt_`)."""
import ast

METHODS = set('''join find rfind index rindex replace startswith endswith split rsplit strip lstrip rstrip
count encode decode partition rpartition upper lower title capitalize swapcase isdigit isalpha isalnum isspace
isupper islower ljust rjust center zfill format splitlines translate expandtabs
has_key keys values items iteritems iterkeys itervalues viewkeys viewvalues viewitems get pop setdefault update copy clear popitem
next sort remove insert extend append reverse __str__ __repr__ __len__ __hash__'''.split())

BINOPS = {'Add': ast.Add, 'Sub': ast.Sub, 'Mult': ast.Mult, 'Pow': ast.Pow, 'LShift': ast.LShift,
          'RShift': ast.RShift, 'BitOr': ast.BitOr, 'BitXor': ast.BitXor, 'BitAnd': ast.BitAnd,
          'FloorDiv': ast.FloorDiv}
UNARY = {'Not': ast.Not, 'USub': ast.USub, 'UAdd': ast.UAdd, 'Invert': ast.Invert}
CMP_NATIVE = {'Eq': ast.Eq, 'NotEq': ast.NotEq}
CMP_RT = {'Lt': 'lt', 'LtE': 'le', 'Gt': 'gt', 'GtE': 'ge', 'In': 'in_', 'NotIn': 'notin',
          'Is': 'is_', 'IsNot': 'isnot'}


class XformError(Exception):
    pass


class X(object):
    def __init__(self, modname, functions):
        self.mod = modname
        self.functions = functions       # list of qualified names, index = id
        self.scope = []
        self.n = 0

    # -- helpers
    def tmp(self):
        self.n += 1
        return '_t%d_' % self.n

    def name(self, s, store=False):
        return ast.Name(s, ast.Store() if store else ast.Load())

    def rt(self, fn, *args):
        return ast.Call(ast.Attribute(self.name('_rt_'), fn, ast.Load()), list(args), [])

    def const(self, v):
        return ast.Constant(v)

    # -- entry
    def module(self, j):
        m = ast.Module(body=self.body(j['body'], top=True), type_ignores=[])
        ast.fix_missing_locations(m)
        return m

    def body(self, stmts, top=False):
        out = []
        for s in stmts:
            line = s.get('@', 1)
            scope = list(self.scope)
            try:
                res = getattr(self, 's_' + s['_'])(s)
            except (XformError, AttributeError, KeyError) as e:
                # reaching this statement ends the path as undecided; the rest of the module is still usable
                self.scope = scope
                res = ast.Expr(self.rt('unsupported', self.const('statement at line %s: %s' % (line, e))))
            if not isinstance(res, list):
                res = [res]
            for r in res:
                if not hasattr(r, 'lineno'):
                    r.lineno = r.end_lineno = line
                    r.col_offset = r.end_col_offset = 0
                self.setline(r, line)
                out.append(r)
        if not out and not top:
            out.append(ast.Pass())
        return out

    def setline(self, node, line):
        for n in ast.walk(node):
            if isinstance(n, (ast.expr, ast.stmt, ast.excepthandler, ast.arg, ast.keyword, ast.alias)) \
                    and not hasattr(n, 'lineno'):
                n.lineno = line
                n.end_lineno = line
                n.col_offset = 0
                n.end_col_offset = 0

    # -- statements
    def s_Expr(self, s):
        return ast.Expr(self.e(s['value']))

    def s_Pass(self, s):
        return ast.Pass()

    def s_Break(self, s):
        return ast.Break()

    def s_Continue(self, s):
        return ast.Continue()

    def s_Global(self, s):
        return ast.Global(list(s['names']))

    def s_Return(self, s):
        return ast.Return(self.e(s['value']) if s.get('value') else None)

    def s_Assert(self, s):
        return ast.Assert(self.e(s['test']), self.e(s['msg']) if s.get('msg') else None)

    def s_Delete(self, s):
        out = []
        for t in s['targets']:
            if t['_'] == 'Subscript' and t['slice']['_'] == 'Index':
                out.append(ast.Expr(self.rt('delitem', self.e(t['value']), self.e(t['slice']['value']))))
            elif t['_'] in ('Tuple', 'List'):
                out += self.s_Delete({'targets': t['elts']})
            else:
                out.append(ast.Delete([self.target(t, ast.Del())]))
        return out

    def target(self, t, ctx=None):
        ctx = ctx or ast.Store()
        k = t['_']
        if k == 'Name':
            return ast.Name(t['id'], ctx)
        if k == 'Attribute':
            return ast.Attribute(self.e(t['value']), t['attr'], ctx)
        if k == 'Subscript':
            return ast.Subscript(self.e(t['value']), self.slice(t['slice']), ctx)
        if k == 'Tuple':
            return ast.Tuple([self.target(x, ctx) for x in t['elts']], ctx)
        if k == 'List':
            return ast.List([self.target(x, ctx) for x in t['elts']], ctx)
        raise XformError('target ' + k)

    def slice(self, sl):
        k = sl['_']
        if k == 'Index':
            return self.e(sl['value'])
        if k == 'Slice':
            return ast.Slice(*[self.e(sl[x]) if sl.get(x) else None for x in ('lower', 'upper', 'step')])
        raise XformError('slice ' + k)

    def assign_to(self, t, value):
        """one target, value is an ast expr that may be evaluated once"""
        if t['_'] == 'Subscript' and t['slice']['_'] == 'Index':
            return ast.Expr(self.rt('setitem', value, self.e(t['value']), self.e(t['slice']['value'])))
        if t['_'] == 'Subscript':
            sl = t['slice']
            if sl['_'] != 'Slice':
                raise XformError('slice ' + sl['_'])
            return ast.Expr(self.rt('setslice', value, self.e(t['value']),
                                    *[self.e(sl[x]) if sl.get(x) else self.const(None) for x in ('lower', 'upper', 'step')]))
        if t['_'] in ('Tuple', 'List'):
            value = self.rt('unpack', value)
        return ast.Assign([self.target(t)], value)

    def s_Assign(self, s):
        v = self.e(s['value'])
        if len(s['targets']) == 1:
            return self.assign_to(s['targets'][0], v)
        n = self.tmp()
        out = [ast.Assign([self.name(n, True)], v)]
        for t in s['targets']:
            out.append(self.assign_to(t, self.name(n)))
        return out

    def s_AugAssign(self, s):
        op = s['op']['_']
        t = s['target']
        v = self.e(s['value'])
        if t['_'] == 'Subscript' and t['slice']['_'] == 'Index':
            return ast.Expr(self.rt('augitem', self.e(t['value']), self.e(t['slice']['value']), self.const(op), v))
        if op in ('Div', 'Mod'):
            return ast.Assign([self.target(t)], self.rt('div' if op == 'Div' else 'mod', self.load(t), v))
        return ast.AugAssign(self.target(t), BINOPS[op](), v)

    def load(self, t):
        return self.e(t)

    def s_Print(self, s):
        a = [self.e(x) for x in s['values']]
        return ast.Expr(self.rt('print_', self.e(s['dest']) if s.get('dest') else self.const(None),
                                ast.List(a, ast.Load()), self.const(bool(s['nl']))))

    def s_Exec(self, s):
        return ast.Expr(self.rt('unsupported', self.const('exec statement')))

    def s_If(self, s):
        return ast.If(self.e(s['test']), self.body(s['body']), self.body(s['orelse'], True) if s['orelse'] else [])

    def tick(self):
        return ast.Expr(self.rt('tick'))

    def s_While(self, s):
        return ast.While(self.e(s['test']), [self.tick()] + self.body(s['body']),
                         self.body(s['orelse'], True) if s['orelse'] else [])

    def s_For(self, s):
        body = self.body(s['body'])
        t = s['target']
        if t['_'] in ('Name',):
            tgt = self.target(t)
        else:
            n = self.tmp()
            tgt = self.name(n, True)
            body = [self.assign_to(t, self.name(n))] + body
        return ast.For(tgt, self.rt('iter_', self.e(s['iter'])), body,
                       self.body(s['orelse'], True) if s['orelse'] else [])

    def s_With(self, s):
        return ast.With([ast.withitem(self.e(s['context_expr']),
                                      self.target(s['optional_vars']) if s.get('optional_vars') else None)],
                        self.body(s['body']))

    def s_Raise(self, s):
        if not s.get('type'):
            return ast.Raise(None, None)
        if not s.get('inst'):
            return ast.Raise(self.rt('exc', self.e(s['type'])), None)
        return ast.Raise(self.rt('exc', self.e(s['type']), self.e(s['inst'])), None)

    def s_TryExcept(self, s):
        hs = []
        for h in s['handlers']:
            n = self.tmp()
            body = [ast.Expr(self.rt('caught', self.name(n)))]
            if h.get('name'):
                body.append(self.assign_to(h['name'], self.name(n)))
            body += self.body(h['body'])
            ty = self.e(h['type']) if h.get('type') else self.name('Exception')
            if not h.get('type'):
                ty = ast.Attribute(self.name('_rt_'), 'Exc', ast.Load())
            hs.append(ast.ExceptHandler(ty, n, body))
        return ast.Try(self.body(s['body']), hs, self.body(s['orelse'], True) if s['orelse'] else [], [])

    def s_TryFinally(self, s):
        return ast.Try(self.body(s['body']), [], [], self.body(s['finalbody']))

    def s_Import(self, s):
        out = []
        for a in s['names']:
            nm, asn = a['name'], a.get('asname')
            call = self.rt('import_', self.name('__name__'), self.const(nm), self.const(bool(asn)))
            out.append(ast.Assign([self.name(asn or nm.split('.')[0], True)], call))
        return out

    def s_ImportFrom(self, s):
        n = self.tmp()
        lvl = s.get('level') or 0
        out = [ast.Assign([self.name(n, True)],
                          self.rt('import_from', self.name('__name__'), self.const(s.get('module') or ''),
                                  self.const(lvl)))]
        for a in s['names']:
            if a['name'] == '*':
                out.append(ast.Expr(self.rt('import_star', self.name(n),
                                            ast.Call(self.name('globals'), [], []))))
            else:
                out.append(ast.Assign([self.name(a.get('asname') or a['name'], True)],
                                      self.rt('import_attr', self.name(n), self.const(a['name']))))
        return out

    def args(self, a):
        """returns (ast.arguments, prologue statements for tuple parameters)"""
        pro, args = [], []
        for p in a['args']:
            if p['_'] == 'Name':
                args.append(ast.arg(p['id']))
            else:
                n = self.tmp()
                args.append(ast.arg(n))
                pro.append(ast.Assign([self.target(p)], self.name(n)))
        va, kw = a.get('vararg'), a.get('kwarg')
        va = va['id'] if isinstance(va, dict) else va
        kw = kw['id'] if isinstance(kw, dict) else kw
        return ast.arguments(posonlyargs=[], args=args, vararg=ast.arg(va) if va else None,
                             kwonlyargs=[], kw_defaults=[], kwarg=ast.arg(kw) if kw else None,
                             defaults=[self.e(d) for d in a['defaults']]), pro

    def s_FunctionDef(self, s):
        args, pro = self.args(s['args'])
        decos = [self.e(d) for d in s['decorator_list']]
        q = '.'.join([self.mod] + self.scope + [s['name']])
        self.functions.append(q)
        idx = len(self.functions) - 1
        self.scope.append(s['name'])
        body = self.body(s['body'])
        self.scope.pop()
        doc = []
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
            doc, body = body[:1], body[1:]
        body = doc + [ast.Expr(self.rt('enter', self.const(idx)))] + pro + body
        return ast.FunctionDef(name=s['name'], args=args, body=body, decorator_list=decos, returns=None,
                               type_params=[])

    def s_ClassDef(self, s):
        self.scope.append(s['name'])
        body = self.body(s['body'])
        self.scope.pop()
        bases = [self.e(b) for b in s['bases']]
        decos = [self.e(d) for d in s['decorator_list']] + [ast.Attribute(self.name('_rt_'), 'fixclass', ast.Load())]
        return ast.ClassDef(name=s['name'], bases=bases, keywords=[], body=body, decorator_list=decos, type_params=[])

    # -- expressions
    def e(self, j):
        return getattr(self, 'e_' + j['_'])(j)

    def e_Name(self, j):
        if j['id'] in ('None', 'True', 'False'):
            return self.const({'None': None, 'True': True, 'False': False}[j['id']])
        return self.name(j['id'])

    def e_Num(self, j):
        k, v = j['n']
        if k == 'i':
            return self.const(int(v.rstrip('Ll')))
        if k == 'f':
            return self.const(float(v))
        raise XformError('complex constant')

    def e_Str(self, j):
        if j.get('u'):
            return self.rt('U', self.const(j['s']))
        return self.const(j['s'])

    def e_BoolOp(self, j):
        op = ast.And() if j['op']['_'] == 'And' else ast.Or()
        return ast.BoolOp(op, [self.e(x) for x in j['values']])

    def e_BinOp(self, j):
        op = j['op']['_']
        a, b = self.e(j['left']), self.e(j['right'])
        if op == 'Div':
            return self.rt('div', a, b)
        if op == 'Mod':
            return self.rt('mod', a, b)
        return ast.BinOp(a, BINOPS[op](), b)

    def e_UnaryOp(self, j):
        return ast.UnaryOp(UNARY[j['op']['_']](), self.e(j['operand']))

    def e_Lambda(self, j):
        args, pro = self.args(j['args'])
        if not pro:
            return ast.Lambda(args, self.e(j['body']))
        names = []

        def shape(t):
            if t['_'] == 'Name':
                names.append(t['id'])
                return None
            return tuple(shape(x) for x in t['elts'])
        values = []
        tuples = [p for p in j['args']['args'] if p['_'] != 'Name']
        for p, asg in zip(tuples, pro):
            values.append(ast.Starred(self.rt('flat', asg.value, self.const(shape(p))), ast.Load()))
        inner = ast.arguments(posonlyargs=[], args=[ast.arg(n) for n in names], vararg=None, kwonlyargs=[], kw_defaults=[], kwarg=None,
                              defaults=[])
        return ast.Lambda(args, ast.Call(ast.Lambda(inner, self.e(j['body'])), values, []))

    def e_IfExp(self, j):
        return ast.IfExp(self.e(j['test']), self.e(j['body']), self.e(j['orelse']))

    def e_Dict(self, j):
        return ast.Call(ast.Attribute(self.name('_rt_'), 'mkdict', ast.Load()),
                        [ast.List([ast.Tuple([self.e(k), self.e(v)], ast.Load())
                                   for k, v in zip(j['keys'], j['values'])], ast.Load())], []) \
            if j['keys'] else ast.Dict([], [])

    def e_Set(self, j):
        return self.rt('mkset', ast.List([self.e(x) for x in j['elts']], ast.Load()))

    def gens(self, gs):
        out = []
        for g in gs:
            out.append(ast.comprehension(self.target(g['target']), self.rt('iter_', self.e(g['iter'])),
                                         [self.e(c) for c in g['ifs']], 0))
        return out

    def e_ListComp(self, j):
        return ast.ListComp(self.e(j['elt']), self.gens(j['generators']))

    def e_GeneratorExp(self, j):
        return ast.GeneratorExp(self.e(j['elt']), self.gens(j['generators']))

    def e_SetComp(self, j):
        return self.rt('mkset', ast.GeneratorExp(self.e(j['elt']), self.gens(j['generators'])))

    def e_DictComp(self, j):
        return self.rt('mkdict', ast.GeneratorExp(ast.Tuple([self.e(j['key']), self.e(j['value'])], ast.Load()), self.gens(j['generators'])))

    def e_Yield(self, j):
        return ast.Yield(self.e(j['value']) if j.get('value') else None)

    def cmp1(self, op, a, b):
        if op in CMP_NATIVE:
            return ast.Compare(a, [CMP_NATIVE[op]()], [b])
        return self.rt(CMP_RT[op], a, b)

    def e_Compare(self, j):
        ops = [o['_'] for o in j['ops']]
        cs = j['comparators']
        if len(ops) == 1:
            return self.cmp1(ops[0], self.e(j['left']), self.e(cs[0]))
        # chained: a < b < c  ->  (a < (t := b)) and (t < c)
        vals = []
        left = self.e(j['left'])
        for i, (op, c) in enumerate(zip(ops, cs)):
            if i < len(ops) - 1:
                n = self.tmp()
                right = ast.NamedExpr(self.name(n, True), self.e(c))
                vals.append(self.cmp1(op, left, right))
                left = self.name(n)
            else:
                vals.append(self.cmp1(op, left, self.e(c)))
        return ast.BoolOp(ast.And(), vals)

    def e_Call(self, j):
        args = [self.e(a) for a in j['args']]
        if j.get('starargs'):
            args.append(ast.Starred(self.rt('iter_', self.e(j['starargs'])), ast.Load()))
        kws = [ast.keyword(k['arg'], self.e(k['value'])) for k in j['keywords']]
        if j.get('kwargs'):
            kws.append(ast.keyword(None, self.e(j['kwargs'])))
        f = j['func']
        if f['_'] == 'Attribute' and f['attr'] in METHODS:
            return ast.Call(ast.Attribute(self.name('_rt_'), 'mcall', ast.Load()),
                            [self.e(f['value']), self.const(f['attr'])] + args, kws)
        if f['_'] == 'Name' and f['id'] == 'super':
            return ast.Call(self.e(f), args, kws)
        if f['_'] == 'Name' and f['id'] in ('locals', 'globals', 'vars', 'dir'):
            return ast.Call(self.e(f), args, kws)
        if f['_'] == 'Attribute':
            return ast.Call(self.e(f), args, kws)
        return ast.Call(ast.Attribute(self.name('_rt_'), 'call', ast.Load()), [self.e(f)] + args, kws)

    def e_Repr(self, j):
        return self.rt('repr_', self.e(j['value']))

    def e_Attribute(self, j):
        v = j['value']
        if v['_'] == 'Name' and v['id'] in ('str', 'unicode') and j['attr'] in METHODS:
            return self.rt('unbound', self.e(v), self.const(j['attr']))
        if j['attr'] == 'message':
            return self.rt('message', self.e(v))
        return ast.Attribute(self.e(v), j['attr'], ast.Load())

    def e_Subscript(self, j):
        sl = j['slice']
        if sl['_'] == 'Index':
            return self.rt('getitem', self.e(j['value']), self.e(sl['value']))
        if sl['_'] == 'Slice':
            return self.rt('getslice', self.e(j['value']),
                           *[self.e(sl[x]) if sl.get(x) else self.const(None) for x in ('lower', 'upper', 'step')])
        raise XformError('slice ' + sl['_'])

    def e_List(self, j):
        return ast.List([self.e(x) for x in j['elts']], ast.Load())

    def e_Tuple(self, j):
        return ast.Tuple([self.e(x) for x in j['elts']], ast.Load())


def transform(j, modname, functions):
    return X(modname, functions).module(j)
