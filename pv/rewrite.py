"""Mechanical rewriting of the code under verification.

Every run re-reads the sources of the modules named below, rewrites their
function bodies with the syntax-directed rules of this file and compiles the
result in place of the original module.  Nothing is copied by hand and no
function is replaced: with ordinary (non-symbolic) values the rewritten module
computes what the original computes; this is checked on every run by executing
the contracts on both (see pv.runner).

Rules (function bodies only; module and class level code is untouched):
  f(a, ...)              __pv__.call(f, a, ...)
  super()                super(__class__, <first argument>)
  o[k]                   __pv__.getitem(o, k)       (load; store and del alike)
  o.a = v                __pv__.set_attr(v, o, 'a') (also augmented)
  x in s, x not in s     __pv__.contains(x, s), __pv__.not_contains(x, s)
  not x                  __pv__.not_(x)
  a % b                  __pv__.mod(a, b)
  [a, b]                 __pv__.display_list(a, b)
  f'{a}{b}'              __pv__.fstring(a, b)
  [e for x in s if c]    __pv__.comp_list(s, lambda x: e, lambda x: c, kind)
  for x in s: B          a closure for B and __pv__.run_loop(s, closure, ...)
  except: ...            except Exception and everything but engine signals
"""
import ast
import copy
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

# module name -> None (all functions) or the set of functions to rewrite
TARGETS = {
    'elementstx': None, 'elementstx.blech32': None, 'elementstx.wallet': None,
    'elementstx.util': None, 'elementstx.liquid_addr': None,
    'elementstx.core': None, 'elementstx.core.script': None, 'elementstx.core.secp256k1': None,
    'bitcointx.core': None, 'bitcointx.core.serialize': None, 'bitcointx.core.script': None,
    'bitcointx.core.sha256': None, 'bitcointx.core._ripemd160': set(),
    'bitcointx.core.key': None, 'bitcointx.wallet': None, 'bitcointx.base58': None,
    'bitcointx.bech32': None, 'bitcointx.segwit_addr': None, 'bitcointx.core.secp256k1': None,
    'bitcointx.util': {'tagged_hasher', 'ensure_isinstance'},
}
SPEC_PREFIX = ('specs',)


class _Names(ast.NodeVisitor):
    """names bound in a statement list (own scope only)"""

    def __init__(self):
        self.names = []

    def add(self, n):
        if n not in self.names:
            self.names.append(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.add(n.id)

    def visit_FunctionDef(self, n):
        self.add(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef
    visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        for x in ast.walk(n):
            if isinstance(x, ast.NamedExpr):
                self.add(x.target.id)
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def _imp(self, n):
        for a in n.names:
            self.add((a.asname or a.name).split('.')[0])
    visit_Import = visit_ImportFrom = _imp

    def visit_MatchAs(self, n):
        if n.name:
            self.add(n.name)
        self.generic_visit(n)

    def visit_MatchStar(self, n):
        if n.name:
            self.add(n.name)


def bound_names(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v.names


def has_yield(stmts):
    todo = list(stmts)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.AsyncFor, ast.AsyncWith)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def simple(e):
    """names, attributes, constants, arithmetic, len()"""
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if not (isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1 and not n.keywords):
                return False
        elif not isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.operator, ast.Load)):
            return False
    return True


def has_walrus(n):
    return any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom)) for x in ast.walk(n))


def pv(name):
    return ast.Attribute(value=ast.Name(id='__pv__', ctx=ast.Load()), attr=name, ctx=ast.Load())


def pvcall(name, *args):
    return ast.Call(func=pv(name), args=list(args), keywords=[])


def load(n):
    return ast.Name(id=n, ctx=ast.Load())


def store(n):
    return ast.Name(id=n, ctx=ast.Store())


def const(v):
    return ast.Constant(value=v)


def lam(args, body):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args],
                                         kwonlyargs=[], kw_defaults=[], defaults=[]), body=body)


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
       ast.LShift: '<<', ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.Pow: '**',
       ast.MatMult: '@'}


class Func:
    """state while rewriting one function"""

    def __init__(self, node, cls, outer):
        a = node.args
        allargs = a.posonlyargs + a.args
        self.first = allargs[0].arg if allargs else (outer.first if outer else None)
        self.cls = cls
        self.n = 0
        self.globals = set()
        self.nonlocals = set()
        self.stub = []
        self.loopdepth = 0        # for-loops turned into closures around the statement

    def tmp(self, base):
        self.n += 1
        return '__pv_%s%d' % (base, self.n)


class Rewriter(ast.NodeTransformer):
    def __init__(self, only=None):
        self.only = only
        self.cls = []
        self.fn = []
        self.inloop = [False]      # inside a closure-converted loop, innermost is not `while`

    # -- structure
    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        saved, self.fn = self.fn, []      # class bodies are not function bodies
        if saved:
            # a class defined in a function: its methods see the enclosing scope
            pass
        node.body = [self.visit_item(s) for s in node.body]
        self.fn = saved
        self.cls.pop()
        return node

    def visit_item(self, s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return self.visit(s)
        if isinstance(s, (ast.If, ast.Try, ast.With)):
            for f in ('body', 'orelse', 'finalbody'):
                if hasattr(s, f):
                    setattr(s, f, [self.visit_item(x) for x in getattr(s, f)])
            for h in getattr(s, 'handlers', []):
                h.body = [self.visit_item(x) for x in h.body]
        return s

    def visit_Module(self, node):
        node.body = [self.visit_item(s) for s in node.body]
        return node

    def visit_AsyncFunctionDef(self, node):
        return node

    def visit_FunctionDef(self, node):
        if self.only is not None and not self.fn and node.name not in self.only:
            return node
        f = Func(node, self.cls[-1] if self.cls else None, self.fn[-1] if self.fn else None)
        f.xor = any(isinstance(s, ast.BitXor) for s in ast.walk(node))
        for s in ast.walk(node):
            if isinstance(s, ast.Global):
                f.globals.update(s.names)
            elif isinstance(s, ast.Nonlocal):
                f.nonlocals.update(s.names)
        self.fn.append(f)
        saved, self.inloop = self.inloop, [None]
        doc = []
        body = node.body
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            doc, body = [body[0]], body[1:]
        new = self.stmts(body)
        a = node.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for x in (a.vararg, a.kwarg):
            if x:
                params.add(x.arg)
        stub = [n for n in f.stub if n not in params and n not in f.globals and n not in f.nonlocals]
        head = []
        if stub:
            # makes the names local to this function; never executed
            head = [ast.If(test=const(0), body=[ast.Assign(targets=[store(n)], value=const(None))
                                                for n in stub], orelse=[])]
        decl = [s for s in new if isinstance(s, (ast.Global, ast.Nonlocal))]
        new = [s for s in new if s not in decl]
        node.body = doc + decl + head + new
        if not node.body:
            node.body = [ast.Pass()]
        self.inloop = saved
        self.fn.pop()
        return node

    def visit_Lambda(self, node):
        saved, self.inloop = self.inloop, [None]
        node.body = self.visit(node.body)
        self.inloop = saved
        return node

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None:
                continue
            if isinstance(r, list):
                for x in r:
                    ast.copy_location(x, s)
                    out.append(x)
            else:
                ast.copy_location(r, s)
                out.append(r)
        return out

    def generic_visit(self, node):
        for field, old in ast.iter_fields(node):
            if isinstance(old, list) and old and isinstance(old[0], ast.stmt):
                setattr(node, field, self.stmts(old) or [ast.Pass()])
            elif isinstance(old, list):
                new = []
                for x in old:
                    if isinstance(x, ast.AST):
                        x = self.visit(x)
                        if x is None:
                            continue
                    new.append(x)
                setattr(node, field, new)
            elif isinstance(old, ast.AST):
                r = self.visit(old)
                setattr(node, field, r)
        return node

    # -- expressions
    def visit_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and not node.args and not node.keywords:
            return ast.copy_location(ast.Call(func=load('super'), args=[load('__class__'), load(self.fn[-1].first)],
                                              keywords=[]), node)
        if isinstance(node.func, ast.Name) and node.func.id in ('locals', 'globals', 'vars', 'super'):
            return self.generic_visit(node)
        node = self.generic_visit(node)
        return ast.copy_location(ast.Call(func=pv('call'), args=[node.func] + node.args,
                                          keywords=node.keywords), node)

    def visit_Subscript(self, node):
        if not isinstance(node.ctx, ast.Load):
            return self.generic_visit(node)
        node = self.generic_visit(node)
        return ast.copy_location(pvcall('getitem', node.value, self.key(node.slice)), node)

    def key(self, s):
        """slice syntax is only valid inside a subscript"""
        if isinstance(s, ast.Slice):
            f = lambda x: x if x is not None else const(None)
            return ast.Call(func=pv('slice'), args=[f(s.lower), f(s.upper), f(s.step)], keywords=[])
        if isinstance(s, ast.Tuple) and any(isinstance(x, ast.Slice) for x in s.elts):
            return ast.Tuple(elts=[self.key(x) for x in s.elts], ctx=ast.Load())
        return s

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            nm = 'contains' if isinstance(node.ops[0], ast.In) else 'not_contains'
            return ast.copy_location(pvcall(nm, node.left, node.comparators[0]), node)
        return node

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return ast.copy_location(pvcall('not_', node.operand), node)
        return node

    def visit_IfExp(self, node):
        # bit manipulation: both sides are values
        if self.fn and self.fn[-1].xor and not has_walrus(node):
            node = self.generic_visit(node)
            return ast.copy_location(pvcall('ifexp', node.test, lam([], node.body), lam([], node.orelse)), node)
        return self.generic_visit(node)

    def visit_If(self, node):
        b = node.body[0]
        if self.fn and self.fn[-1].xor and len(node.body) == 1 and not node.orelse and not has_walrus(node) and (
                isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and isinstance(b.op, ast.BitXor)
                or isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name)
                and isinstance(b.value, ast.BinOp) and isinstance(b.value.op, ast.BitXor)):
            x = b.target.id if isinstance(b, ast.AugAssign) else b.targets[0].id
            v = ast.BinOp(left=load(x), op=ast.BitXor(), right=b.value) if isinstance(b, ast.AugAssign) else b.value
            nm = self.fn[-1].tmp('t')
            v1 = self.visit(copy.deepcopy(v))
            out = [ast.Assign(targets=[store(nm)], value=self.visit(node.test)),
                   ast.If(test=pvcall('mergeable', load(nm)),
                          body=[ast.Assign(targets=[store(x)], value=pvcall('ifexp', load(nm), lam([], v1),
                                                                            lam([], load(x))))],
                          orelse=[ast.If(test=load(nm), body=self.stmts(node.body), orelse=[])])]
            return out
        return self.generic_visit(node)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(pvcall('mod', node.left, node.right), node)
        return node

    def visit_JoinedStr(self, node):
        node = self.generic_visit(node)
        out = []
        for p in node.values:
            if isinstance(p, ast.FormattedValue):
                plain = p.conversion in (-1, 115) and p.format_spec is None
                p = p.value if plain else ast.JoinedStr(values=[p])
            out.append(p)
        return ast.copy_location(pvcall('fstring', *out), node)

    def visit_FormattedValue(self, node):
        # the format specification is no text of its own
        node.value = self.visit(node.value)
        return node

    def visit_List(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load):
            return ast.copy_location(pvcall('display_list', *node.elts), node)
        return node

    def _comp(self, node, kind):
        if len(node.generators) != 1 or node.generators[0].is_async or has_walrus(node):
            return self.generic_visit(node)
        g = node.generators[0]
        it = self.visit(g.iter)
        saved, self.inloop = self.inloop, [None]
        elt = self.visit(node.elt)
        conds = [self.visit(c) for c in g.ifs]
        self.inloop = saved
        if conds:
            cond = conds[0] if len(conds) == 1 else ast.BoolOp(op=ast.And(), values=conds)
        else:
            cond = None

        def fn(e):
            if isinstance(g.target, ast.Name):
                return lam([g.target.id], e)
            inner = ast.ListComp(elt=e, generators=[ast.comprehension(
                target=g.target, iter=ast.Tuple(elts=[load('__pv_p')], ctx=ast.Load()), ifs=[], is_async=0)])
            return lam(['__pv_p'], ast.Subscript(value=inner, slice=const(0), ctx=ast.Load()))
        return ast.copy_location(pvcall('comp_list', it, fn(elt), fn(cond) if cond is not None else const(None),
                                        const(kind)), node)

    def visit_ListComp(self, node):
        return self._comp(node, 'list')

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen')

    # -- statements
    def mangle(self, n):
        if n.startswith('__') and not n.endswith('__') and self.cls:
            return '_%s%s' % (self.cls[-1].lstrip('_'), n)
        return n

    def assign_to(self, target, value):
        """statements assigning the expression `value` to `target`"""
        if isinstance(target, ast.Attribute):
            return [ast.Expr(pvcall('set_attr', value, self.visit(target.value), const(self.mangle(target.attr))))]
        if isinstance(target, ast.Subscript):
            return [ast.Expr(pvcall('set_item', value, self.visit(target.value), self.key(self.visit(target.slice))))]
        if isinstance(target, (ast.Tuple, ast.List)) and any(
                isinstance(x, (ast.Attribute, ast.Subscript)) for x in ast.walk(target)):
            elts, post = [], []
            for t in target.elts:
                star = isinstance(t, ast.Starred)
                u = t.value if star else t
                if isinstance(u, ast.Name):
                    elts.append(t)
                    continue
                nm = self.fn[-1].tmp('t')
                elts.append(ast.Starred(value=store(nm), ctx=ast.Store()) if star else store(nm))
                post += self.assign_to(u, load(nm))
            return [ast.Assign(targets=[ast.Tuple(elts=elts, ctx=ast.Store())], value=value)] + post
        return [ast.Assign(targets=[target], value=value)]

    def visit_Assign(self, node):
        v = self.visit(node.value)
        if len(node.targets) == 1:
            return self.assign_to(node.targets[0], v)
        nm = self.fn[-1].tmp('t')
        out = [ast.Assign(targets=[store(nm)], value=v)]
        for t in node.targets:
            out += self.assign_to(t, load(nm))
        return out

    def visit_AnnAssign(self, node):
        if node.value is None:
            return node
        if isinstance(node.target, ast.Name):
            node.value = self.visit(node.value)
            return node
        return self.assign_to(node.target, self.visit(node.value))

    def visit_AugAssign(self, node):
        op = const(OPS[type(node.op)])
        if isinstance(node.target, ast.Name):
            node.value = self.visit(node.value)
            if isinstance(node.op, ast.Mod):
                return ast.Assign(targets=[store(node.target.id)],
                                  value=pvcall('mod', load(node.target.id), node.value))
            return node
        f = lam([], self.visit(node.value))
        if isinstance(node.target, ast.Attribute):
            return ast.Expr(pvcall('aug_attr', self.visit(node.target.value), const(self.mangle(node.target.attr)), op, f))
        return ast.Expr(pvcall('aug_item', self.visit(node.target.value), self.key(self.visit(node.target.slice)), op, f))

    def visit_Delete(self, node):
        out = []
        for t in node.targets:
            if isinstance(t, ast.Attribute):
                out.append(ast.Expr(pvcall('del_attr', self.visit(t.value), const(self.mangle(t.attr)))))
            elif isinstance(t, ast.Subscript):
                out.append(ast.Expr(pvcall('del_item', self.visit(t.value), self.key(self.visit(t.slice)))))
            else:
                out.append(ast.Delete(targets=[t]))
        return out

    def visit_ExceptHandler(self, node):
        node = self.generic_visit(node)
        if node.type is None or (isinstance(node.type, ast.Name) and node.type.id == 'BaseException'):
            nm = node.name or self.fn[-1].tmp('e')
            node.type = load('BaseException')
            node.name = nm
            node.body = [ast.Expr(pvcall('not_engine', load(nm)))] + node.body
        return node

    def visit_Return(self, node):
        v = self.visit(node.value) if node.value is not None else const(None)
        if self.inloop[0] is not None:
            return ast.Return(value=pvcall('Ret', v))
        node.value = v
        return node

    def visit_Break(self, node):
        if self.inloop[-1] == 'for':
            return ast.Return(value=pv('BRK'))
        return node

    def visit_Continue(self, node):
        if self.inloop[-1] == 'for':
            return ast.Return(value=const(None))
        return node

    def visit_While(self, node):
        t = node.test
        ops = {ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge', ast.NotEq: 'ne'}
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and type(t.ops[0]) in ops and self.fn and \
                not has_yield(node.body) and simple(t.left) and simple(t.comparators[0]):
            it = pvcall('While', lam([], t.left), const(ops[type(t.ops[0])]), lam([], t.comparators[0]))
            return self.visit_For(ast.copy_location(ast.For(
                target=store('__pv_unused'), iter=it, body=node.body, orelse=node.orelse, type_comment=None), node))
        node.test = self.visit(node.test)
        self.inloop.append('while')
        node.body = self.stmts(node.body) or [ast.Pass()]
        self.inloop.pop()
        node.orelse = self.stmts(node.orelse)
        return node

    def visit_For(self, node):
        if has_yield(node.body) or has_yield([node.iter]):
            node.iter = self.visit(node.iter)
            self.inloop.append('while')
            node.body = self.stmts(node.body) or [ast.Pass()]
            self.inloop.pop()
            node.orelse = self.stmts(node.orelse)
            return node
        f = self.fn[-1]
        f.n += 1
        k = f.n
        it = self.visit(node.iter)
        names = bound_names([ast.Assign(targets=[node.target], value=const(None))] + node.body)
        glob = [n for n in names if n in f.globals]
        loc = [n for n in names if n not in f.globals]
        f.stub += [n for n in loc if n not in f.stub]
        # inloop[0] tells `return` whether it leaves a closure
        saved = self.inloop
        self.inloop = ['for'] if saved[0] is None else saved + ['for']
        body = self.assign_to(node.target, load('__pv_it')) + self.stmts(node.body)
        self.inloop = saved

        def decls():
            r = []
            if loc:
                r.append(ast.Nonlocal(names=list(loc)))
            if glob:
                r.append(ast.Global(names=list(glob)))
            return r

        def fdef(name, args, b, vararg=None):
            return ast.FunctionDef(
                name=name, args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in args],
                                              vararg=ast.arg(arg=vararg) if vararg else None,
                                              kwonlyargs=[], kw_defaults=[], defaults=[]),
                body=b or [ast.Pass()], decorator_list=[], returns=None, type_params=[])
        inner = [s for s in body if isinstance(s, (ast.Global, ast.Nonlocal))]
        body = [s for s in body if s not in inner]
        bn, sn, gn = '__pv_body%d' % k, '__pv_set%d' % k, '__pv_sig%d' % k
        out = [ast.Assign(targets=[store('__pv_iter%d' % k)], value=it), fdef(bn, ['__pv_it'], decls() + body)]
        setb = decls()
        for q, n in enumerate(loc):
            setb.append(ast.Assign(targets=[store(n)], value=ast.Subscript(
                value=load('__pv_v'), slice=const(q), ctx=ast.Load())))
        for q, n in enumerate(loc):
            setb.append(ast.If(test=ast.Compare(left=load(n), ops=[ast.Is()], comparators=[pv('UNBOUND')]),
                               body=[ast.Delete(targets=[ast.Name(id=n, ctx=ast.Del())])], orelse=[]))
        out.append(fdef(sn, [], setb, vararg='__pv_v'))
        getters = ast.Tuple(elts=[lam([], load(n)) for n in loc], ctx=ast.Load())
        out.append(ast.Assign(targets=[store(gn)], value=pvcall(
            'run_loop', load('__pv_iter%d' % k), load(bn), getters, load(sn), const(tuple(loc)))))
        ret = ast.Return(value=load(gn)) if self.inloop[0] is not None else \
            ast.Return(value=ast.Attribute(value=load(gn), attr='value', ctx=ast.Load()))
        # an unrelated enclosing `while` does not change what `return` means
        out.append(ast.If(test=ast.Compare(left=ast.Call(func=pv('ptype'), args=[load(gn)], keywords=[]),
                                           ops=[ast.Is()], comparators=[pv('Ret')]), body=[ret], orelse=[]))
        if node.orelse:
            out.append(ast.If(test=ast.Compare(left=load(gn), ops=[ast.IsNot()], comparators=[pv('BRK')]),
                              body=self.stmts(node.orelse), orelse=[]))
        return out


def rewrite_source(src, filename, only=None):
    tree = ast.parse(src, filename)
    tree = Rewriter(only).visit(tree)
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.machinery.SourceFileLoader):
    only = None

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        LOADED[fullname] = path
        return compile(rewrite_source(src, path, self.only), path, 'exec', dont_inherit=True)

    def exec_module(self, module):
        from . import hooks
        module.__dict__['__pv__'] = hooks
        super().exec_module(module)


LOADED = {}


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path=None, target=None):
        if fullname in TARGETS:
            only = TARGETS[fullname]
        elif fullname.split('.')[0] in SPEC_PREFIX and not fullname.endswith('_plain'):
            only = None
        else:
            return None
        if only is not None and not only:
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        ld = Loader(fullname, spec.loader.path)
        ld.only = only
        spec.loader = ld
        spec.cached = None
        return spec


def install():
    if not any(isinstance(f, Finder) for f in sys.meta_path):
        sys.meta_path.insert(0, Finder())


if __name__ == '__main__':
    p = sys.argv[1]
    print(ast.unparse(rewrite_source(open(p).read(), p)))
