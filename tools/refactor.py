"""Behaviour-preserving variants of the whole source tree, one per kind of edit: the checks have to stay quiet on each.

usage: refactor.py [kind ...]      (python of the repository's tests is used to see that a variant still passes them)
"""
import ast
import copy
import glob
import itertools
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/src/oidcrp'
OUT = '/tmp/rf'


COUNT = itertools.count()


def fresh(name):
    """A method name no class of the hierarchy has."""
    return '_{}_part{}'.format(name.strip('_'), next(COUNT))


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]


def names_in(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name)} | {n.arg for n in ast.walk(node) if isinstance(n, ast.arg)}


def simple_nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) for n in ast.walk(fn) if n is not fn)


class Ret(ast.NodeTransformer):
    """return x -> result = x; return result"""
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name('the_result', ast.Store())], n.value), ast.Return(ast.Name('the_result', ast.Load()))]


class Inv(ast.NodeTransformer):
    """if c: A else: B -> if not c: B else: A"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            t = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
            return ast.If(t, n.orelse, n.body)
        return n


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class Flat(ast.NodeTransformer):
    """if c: return A else: B -> if c: return A; B"""
    def block(self, body):
        res = []
        for st in body:
            st = self.visit(st)
            if isinstance(st, ast.If) and st.orelse and ends(st.body):
                rest, st.orelse = st.orelse, []
                res.append(st)
                res.extend(self.block(rest) if False else rest)
            else:
                res.append(st)
        return res

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                res = []
                for st in v:
                    if isinstance(st, ast.If) and st.orelse and ends(st.body):
                        rest, st.orelse = st.orelse, []
                        res.append(st)
                        res.extend(rest)
                    else:
                        res.append(st)
                setattr(node, f, res)
        return node


class Guard(ast.NodeTransformer):
    """the last `if c: A` of a function -> if not c: return None; A"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        if n.body and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
            last = n.body[-1]
            n.body[-1:] = [ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Return(ast.Constant(None))], [])] + last.body
        return n


class Cmp(ast.NodeTransformer):
    """a == b -> b == a; x not in y -> not x in y; x is not None -> not x is None"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) != 1:
            return n
        if isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
            return ast.Compare(n.comparators[0], n.ops, [n.left])
        if isinstance(n.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        if isinstance(n.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
        flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(type(n.ops[0]))
        if flip:
            return ast.Compare(n.comparators[0], [flip()], [n.left])
        return n


class Nest(ast.NodeTransformer):
    """if a and b: X -> if a: if b: X"""
    def visit_If(self, n):
        self.generic_visit(n)
        if not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
            first, rest = n.test.values[0], n.test.values[1:]
            return ast.If(first, [ast.If(rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest), n.body, [])], [])
        return n


class Cond(ast.NodeTransformer):
    """if test: -> test_ = test; if test_:"""
    def stmts(self, v):
        res = []
        for st in v:
            if isinstance(st, ast.If) and not isinstance(st.test, ast.Name):
                res.append(ast.Assign([ast.Name('the_condition', ast.Store())], st.test))
                st.test = ast.Name('the_condition', ast.Load())
            res.append(st)
        return res

    def generic_visit(self, node):
        super().generic_visit(node)
        if isinstance(node, ast.Module):
            return node
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(node, ast.ClassDef):
                setattr(node, f, self.stmts(v))
        return node


class Fmt(ast.NodeTransformer):
    """'..{}..'.format(x) -> f-string, '%s' % x -> format"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str) and not n.keywords \
                and not any(isinstance(a, ast.Starred) for a in n.args):
            parts = n.func.value.value.split('{}')
            if len(parts) == len(n.args) + 1 and not any('{' in p or '}' in p for p in parts):
                vals = []
                for i, p in enumerate(parts):
                    if p:
                        vals.append(ast.Constant(p))
                    if i < len(n.args):
                        vals.append(ast.FormattedValue(n.args[i], -1, None))
                return ast.JoinedStr(vals)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        if all(isinstance(v, ast.Constant) or v.conversion == -1 and v.format_spec is None for v in n.values):
            text = ''.join(v.value.replace('{', '{{').replace('}', '}}') if isinstance(v, ast.Constant) else '{}' for v in n.values)
            return ast.Call(ast.Attribute(ast.Constant(text), 'format', ast.Load()), [v.value for v in n.values if not isinstance(v, ast.Constant)], [])
        return n


class Try(ast.NodeTransformer):
    """try: v = d[k] except KeyError: A [else: B] -> if k in d: v = d[k]; B else: A"""
    def visit_Try(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.handlers) == 1 and not n.finalbody and isinstance(n.handlers[0].type, ast.Name) and n.handlers[0].type.id == 'KeyError' and n.handlers[0].name is None:
            st = n.body[0]
            if isinstance(st, ast.Assign) and isinstance(st.value, ast.Subscript) and isinstance(st.value.slice, (ast.Constant, ast.Name)) and isinstance(st.value.value, (ast.Name, ast.Attribute)):
                body = [st] + n.orelse
                test = ast.Compare(copy.deepcopy(st.value.slice), [ast.In()], [copy.deepcopy(st.value.value)])
                h = n.handlers[0].body
                if len(h) == 1 and isinstance(h[0], ast.Pass):
                    return ast.If(test, body, [])
                return ast.If(test, body, h)
        return n


class InTry(ast.NodeTransformer):
    """if k in d: v = d[k] else: A -> try/except KeyError"""
    def visit_If(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.Compare) and isinstance(t.ops[0], ast.In) and len(n.body) == 1 and isinstance(n.body[0], ast.Assign):
            v = n.body[0].value
            if isinstance(v, ast.Subscript) and ast.dump(v.value) == ast.dump(t.comparators[0]) and ast.dump(v.slice) == ast.dump(t.left) and isinstance(n.body[0].targets[0], ast.Name):
                return ast.Try(n.body, [ast.ExceptHandler(ast.Name('KeyError', ast.Load()), None, n.orelse or [ast.Pass()])], [], [])
        return n


class Comp(ast.NodeTransformer):
    """x = [e for a in b if c] -> loop, at statement level"""
    def expand(self, st):
        v = st.value
        if isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp)) and len(v.generators) == 1 and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            g = v.generators[0]
            name = st.targets[0].id
            if name in names_in(v):
                return [st]
            if isinstance(v, ast.ListComp):
                new, add = ast.List([], ast.Load()), ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'append', ast.Load()), [v.elt], []))
            elif isinstance(v, ast.SetComp):
                new, add = ast.Call(ast.Name('set', ast.Load()), [], []), ast.Expr(ast.Call(ast.Attribute(ast.Name(name, ast.Load()), 'add', ast.Load()), [v.elt], []))
            else:
                new, add = ast.Dict([], []), ast.Assign([ast.Subscript(ast.Name(name, ast.Load()), v.key, ast.Store())], v.value)
            body = [add]
            for c in reversed(g.ifs):
                body = [ast.If(c, body, [])]
            return [ast.Assign([ast.Name(name, ast.Store())], new), ast.For(g.target, g.iter, body, [])]
        return [st]

    def generic_visit(self, node):
        super().generic_visit(node)
        if isinstance(node, (ast.Module, ast.ClassDef)):
            return node
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                setattr(node, f, [y for st in v for y in (self.expand(st) if isinstance(st, ast.Assign) else [st])])
        return node


class RetComp(Comp):
    """return [..] -> loop and return"""
    def generic_visit(self, node):
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)):
                res = []
                for st in v:
                    if isinstance(st, ast.Return) and isinstance(st.value, (ast.ListComp, ast.DictComp, ast.SetComp)):
                        res += [ast.Assign([ast.Name('collected', ast.Store())], st.value), ast.Return(ast.Name('collected', ast.Load()))]
                    else:
                        res.append(st)
                setattr(node, f, res)
        return super().generic_visit(node)


class Wrap(ast.NodeTransformer):
    """def f(self, a): B -> def f(self, a): return self._f_body(a); def _f_body(self, a): B"""
    def visit_ClassDef(self, c):
        body = []
        for n in c.body:
            if not isinstance(n, ast.FunctionDef) or n.decorator_list or n.name.startswith('__') or n.name == 'gather_verify_arguments' or not n.args.args or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)) \
                    or any(isinstance(x, ast.Name) and x.id in ('super', '__class__') for x in ast.walk(n)):
                body.append(n)
                continue
            inner = copy.deepcopy(n)
            inner.name = fresh(n.name)
            inner.args.defaults = []
            inner.args.kw_defaults = [None for _ in inner.args.kw_defaults]
            inner.returns = None
            a = n.args
            call = ast.Call(ast.Attribute(ast.Name(a.args[0].arg, ast.Load()), inner.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args[1:]] +
                            ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                            [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
            n.body = [ast.Return(call)]
            body += [n, inner]
        c.body = body
        return c


class Tail(ast.NodeTransformer):
    """the last statements of a method go into a helper that gets the locals it needs"""
    head = False

    def visit_ClassDef(self, c):
        body = []
        for n in c.body:
            body.append(n)
            if not isinstance(n, ast.FunctionDef) or n.decorator_list or n.name.startswith('__') or n.name == 'gather_verify_arguments' or len(n.body) < 4 or not n.args.args or simple_nested(n) \
                    or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global)) for x in ast.walk(n)) or any(isinstance(x, ast.Name) and x.id == 'super' for x in ast.walk(n)):
                continue
            k = len(n.body) // 2 + 1
            front, back = n.body[:k], n.body[k:]
            bound = {a.arg for a in n.args.args + n.args.kwonlyargs} | ({n.args.kwarg.arg} if n.args.kwarg else set()) | ({n.args.vararg.arg} if n.args.vararg else set())
            sure = set(bound)
            for st in front:
                if isinstance(st, ast.Assign):
                    sure |= {x.id for t in st.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
            maybe = {x.id for st in front for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            used = {x.id for st in back for x in ast.walk(st) if isinstance(x, ast.Name)}
            if (maybe & used) - sure:
                continue
            me = n.args.args[0].arg
            need = sorted((used & sure) - {me})
            helper = ast.FunctionDef(fresh(n.name), ast.arguments([], [ast.arg(me)] + [ast.arg(x) for x in need], None, [], [], None, []), back, [], None)
            n.body = front + [ast.Return(ast.Call(ast.Attribute(ast.Name(me, ast.Load()), helper.name, ast.Load()), [ast.Name(x, ast.Load()) for x in need], []))]
            body.append(helper)
        c.body = body
        return c


class ModHelper(ast.NodeTransformer):
    """functions of a module delegate to an inner function of the module"""
    def visit_Module(self, m):
        body = []
        for n in m.body:
            if isinstance(n, ast.FunctionDef) and not n.decorator_list and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                inner = copy.deepcopy(n)
                inner.name = '_inner_' + n.name
                inner.args.defaults = []
                inner.args.kw_defaults = [None for _ in inner.args.kw_defaults]
                a = n.args
                call = ast.Call(ast.Name(inner.name, ast.Load()), [ast.Name(x.arg, ast.Load()) for x in a.args] + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()), ast.Load())] if a.vararg else []),
                                [ast.keyword(x.arg, ast.Name(x.arg, ast.Load())) for x in a.kwonlyargs] + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))] if a.kwarg else []))
                n.body = [ast.Return(call)]
                body += [inner, n]
            else:
                body.append(n)
        m.body = body
        return m


class Rename(ast.NodeTransformer):
    """local variables get other names"""
    def visit_FunctionDef(self, n):
        if simple_nested(n) or any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(n)):
            return n
        par = {a.arg for a in n.args.args + n.args.kwonlyargs + n.args.posonlyargs} | ({n.args.kwarg.arg} if n.args.kwarg else set()) | ({n.args.vararg.arg} if n.args.vararg else set())
        loc = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - par
        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('locals', 'eval') for x in ast.walk(n)):
            return n
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in loc:
                x.id = 'v_' + x.id.strip('_')
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                pass
        return n


class Noop(ast.NodeTransformer):
    """statements without effect at the start of every function, and between"""
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body[k:k] = [ast.Assign([ast.Name('unused', ast.Store())], ast.Constant(None)), ast.If(ast.Compare(ast.Name('unused', ast.Load()), [ast.IsNot()], [ast.Constant(None)]), [ast.Pass()], [])]
        return n


class Alias(ast.NodeTransformer):
    """self.x.y(...) -> obj = self.x; obj.y(...) for statements that are calls or assignments of calls"""
    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)):
                res = []
                for st in v:
                    call = st.value if isinstance(st, (ast.Expr, ast.Assign)) and isinstance(st.value, ast.Call) else None
                    if call is not None and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Attribute):
                        res.append(ast.Assign([ast.Name('the_obj', ast.Store())], call.func.value))
                        call.func.value = ast.Name('the_obj', ast.Load())
                    res.append(st)
                setattr(node, f, res)
        return node


class Args(ast.NodeTransformer):
    """arguments of calls are computed before the call"""
    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)):
                res = []
                for st in v:
                    call = st.value if isinstance(st, (ast.Expr, ast.Assign, ast.Return)) and isinstance(st.value, ast.Call) else None
                    if call is not None and isinstance(call.func, (ast.Name, ast.Attribute)) and not isinstance(getattr(call.func, 'value', None), ast.Call):
                        for i, a in enumerate(call.args):
                            if isinstance(a, (ast.Starred, ast.Name, ast.Constant)):
                                continue
                            res.append(ast.Assign([ast.Name('arg_{}'.format(i), ast.Store())], a))
                            call.args[i] = ast.Name('arg_{}'.format(i), ast.Load())
                        for k in call.keywords:
                            if k.arg is None or isinstance(k.value, (ast.Name, ast.Constant)):
                                continue
                            res.append(ast.Assign([ast.Name('kw_' + k.arg, ast.Store())], k.value))
                            k.value = ast.Name('kw_' + k.arg, ast.Load())
                    res.append(st)
                setattr(node, f, res)
        return node


class IfExp(ast.NodeTransformer):
    """x = a if c else b -> if statement; and the other way round"""
    def visit_If(self, n):
        self.generic_visit(n)
        if len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.orelse[0], ast.Assign) and len(n.body[0].targets) == 1 \
                and ast.dump(n.body[0].targets[0]) == ast.dump(n.orelse[0].targets[0]) and isinstance(n.body[0].targets[0], ast.Name):
            return ast.Assign(n.body[0].targets, ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        if len(n.body) == 1 and len(n.orelse) == 1 and isinstance(n.body[0], ast.Return) and isinstance(n.orelse[0], ast.Return) and n.body[0].value is not None and n.orelse[0].value is not None:
            return ast.Return(ast.IfExp(n.test, n.body[0].value, n.orelse[0].value))
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp) and len(n.targets) == 1:
            return ast.If(n.value.test, [ast.Assign(n.targets, n.value.body)], [ast.Assign(copy.deepcopy(n.targets), n.value.orelse)])
        return n


class Upd(ast.NodeTransformer):
    """d.update({'a': x}) -> d['a'] = x; d = {'a': x, ..} -> d = {}; d['a'] = x"""
    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)):
                res = []
                for st in v:
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr == 'update' and len(st.value.args) == 1 \
                            and not st.value.keywords and isinstance(st.value.args[0], ast.Dict) and st.value.args[0].keys and all(isinstance(k, ast.Constant) for k in st.value.args[0].keys):
                        d = st.value.args[0]
                        res += [ast.Assign([ast.Subscript(copy.deepcopy(st.value.func.value), k, ast.Store())], x) for k, x in zip(d.keys, d.values)]
                    elif isinstance(st, ast.Assign) and isinstance(st.value, ast.Dict) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and st.value.keys \
                            and all(isinstance(k, ast.Constant) for k in st.value.keys) and st.targets[0].id not in names_in(st.value):
                        d = st.value
                        res.append(ast.Assign(st.targets, ast.Dict([], [])))
                        res += [ast.Assign([ast.Subscript(ast.Name(st.targets[0].id, ast.Load()), k, ast.Store())], x) for k, x in zip(d.keys, d.values)]
                    else:
                        res.append(st)
                setattr(node, f, res)
        return node


class ToUpd(ast.NodeTransformer):
    """d['a'] = x -> d.update({'a': x}), for names"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].slice, ast.Constant) and isinstance(n.targets[0].slice.value, str) \
                and isinstance(n.targets[0].value, ast.Name) and ('args' in n.targets[0].value.id or n.targets[0].value.id in ('res', 'info', '_info')):
            return ast.Expr(ast.Call(ast.Attribute(n.targets[0].value, 'update', ast.Load()), [ast.Dict([n.targets[0].slice], [n.value])], []))
        return n


class ElseIf(ast.NodeTransformer):
    """code after `if c: return` goes into an else branch"""
    def generic_visit(self, node):
        super().generic_visit(node)
        if isinstance(node, ast.FunctionDef):
            for i, st in enumerate(node.body[:-1]):
                if isinstance(st, ast.If) and not st.orelse and ends(st.body):
                    st.orelse = node.body[i + 1:]
                    node.body = node.body[:i + 1]
                    break
        return node


class Log(ast.NodeTransformer):
    """a log line before every return, in modules with a logger"""
    def visit_Module(self, m):
        self.name = next((t.id for n in m.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name) and t.id.lower() == 'logger'), None)
        return self.generic_visit(m) if self.name else m

    def visit_Return(self, n):
        return [ast.Expr(ast.Call(ast.Attribute(ast.Name(self.name, ast.Load()), 'debug', ast.Load()), [ast.Constant('returning from here')], [])), n]


class Dictify(ast.NodeTransformer):
    """d.get(k) where the default is None -> d[k] if k in d else None, for plain names"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and isinstance(n.func.value, ast.Name) and n.func.value.id in ('kwargs', 'request_args', 'resp', 'response', '_args') and len(n.args) in (1, 2) \
                and isinstance(n.args[0], ast.Constant) and (len(n.args) == 1 or isinstance(n.args[1], ast.Constant)):
            d = n.func.value
            return ast.IfExp(ast.Compare(n.args[0], [ast.In()], [d]), ast.Subscript(d, n.args[0], ast.Load()), n.args[1] if len(n.args) == 2 else ast.Constant(None))
        return n


class Walrus(ast.NodeTransformer):
    """x = e; if x: -> if (x := e):"""
    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)):
                res = []
                for st in v:
                    p = res[-1] if res else None
                    if isinstance(st, ast.If) and isinstance(st.test, ast.Name) and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == st.test.id:
                        res.pop()
                        st.test = ast.NamedExpr(ast.Name(st.test.id, ast.Store()), p.value)
                    res.append(st)
                setattr(node, f, res)
        return node


class Loop(ast.NodeTransformer):
    """for a, b in d.items(): -> for a in d: b = d[a]; for x in y -> for i in list(y)"""
    def visit_For(self, n):
        self.generic_visit(n)
        it = n.iter
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(it.func.value, (ast.Name, ast.Attribute)) and isinstance(n.target, ast.Tuple) \
                and len(n.target.elts) == 2 and all(isinstance(x, ast.Name) for x in n.target.elts):
            a, b = n.target.elts
            return ast.For(a, it.func.value, [ast.Assign([b], ast.Subscript(copy.deepcopy(it.func.value), ast.Name(a.id, ast.Load()), ast.Load()))] + n.body, n.orelse)
        if isinstance(it, ast.Name):
            n.iter = ast.Call(ast.Name('list', ast.Load()), [it], [])
        return n


class Quote(ast.NodeTransformer):
    """a chain of or-ed comparisons -> membership, and small tuples the other way round"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.List, ast.Tuple)) and isinstance(n.left, ast.Name) and n.comparators[0].elts \
                and all(isinstance(x, ast.Constant) for x in n.comparators[0].elts):
            return ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [x]) for x in n.comparators[0].elts]) if len(n.comparators[0].elts) > 1 else n
        return n


NEVER = ('self', 'super', '__class__')


def loads(node):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def own_locals(fn):
    a = fn.args
    res = {x.arg for x in a.args + a.kwonlyargs} | ({a.kwarg.arg} if a.kwarg else set()) | ({a.vararg.arg} if a.vararg else set())
    return res | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {
        h.name for h in ast.walk(fn) if isinstance(h, ast.ExceptHandler) and h.name}


class Pred(ast.NodeTransformer):
    """if <test>: -> if self._helper(locals): of a method"""
    def visit_ClassDef(self, c):
        body = []
        for n in c.body:
            body.append(n)
            if not isinstance(n, ast.FunctionDef) or n.decorator_list or n.name.startswith('__') or n.name == 'gather_verify_arguments' or not n.args.args or simple_nested(n):
                continue
            have = own_locals(n)
            for st in ast.walk(n):
                if isinstance(st, ast.If) and not any(isinstance(x, (ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.Lambda)) for x in ast.walk(st.test)) \
                        and not any(x in loads(st.test) for x in ('super', '__class__')):
                    need = sorted((loads(st.test) & have) - {n.args.args[0].arg})
                    name = fresh(n.name)
                    body.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(n.args.args[0].arg)] + [ast.arg(x) for x in need], None, [], [], None, []), [ast.Return(st.test)], []))
                    st.test = ast.Call(ast.Attribute(ast.Name(n.args.args[0].arg, ast.Load()), name, ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
        c.body = body
        return c


class Calc(ast.NodeTransformer):
    """x = <expression> -> x = _helper(locals), a function of the module"""
    def visit_Module(self, m):
        new = []
        for n in ast.walk(m):
            if not isinstance(n, ast.FunctionDef) or simple_nested(n) or n.decorator_list:
                continue
            have = own_locals(n)
            for st in ast.walk(n):
                if isinstance(st, ast.Assign) and isinstance(st.value, (ast.Call, ast.Subscript, ast.Dict, ast.BinOp)) and not any(
                        isinstance(x, (ast.NamedExpr, ast.ListComp, ast.GeneratorExp, ast.Lambda, ast.DictComp, ast.SetComp, ast.Yield, ast.Await)) for x in ast.walk(st.value)) \
                        and not any(x in loads(st.value) for x in ('super', '__class__')):
                    need = sorted(loads(st.value) & have)
                    name = fresh('calc')
                    new.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in need], None, [], [], None, []), [ast.Return(st.value)], []))
                    st.value = ast.Call(ast.Name(name, ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
        m.body += new
        return m


def quiet(e):
    return all(isinstance(x, (ast.Name, ast.Attribute, ast.Constant, ast.expr_context, ast.Subscript)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in (
        'client_get', 'get', 'get_client_id') or isinstance(x, (ast.Dict, ast.List, ast.Tuple, ast.Compare, ast.cmpop)) for x in ast.walk(e))


class Swap(ast.NodeTransformer):
    """two assignments that do not need each other change places"""
    def generic_visit(self, node):
        super().generic_visit(node)
        if isinstance(node, (ast.Module, ast.ClassDef)):
            return node
        for f in ('body', 'orelse', 'finalbody'):
            v = getattr(node, f, None)
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                i = 0
                while i + 1 < len(v):
                    a, b = v[i], v[i + 1]
                    if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and quiet(x.value) for x in (a, b)) and \
                            a.targets[0].id not in names_in(b) and b.targets[0].id not in names_in(a):
                        v[i], v[i + 1] = b, a
                        i += 1
                    i += 1
        return node


class While(ast.NodeTransformer):
    """for x in xs: -> while True: try: x = next(it) except StopIteration: break"""
    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        return fn

    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        it = fresh('iter')
        return [ast.Assign([ast.Name(it, ast.Store())], ast.Call(ast.Name('iter', ast.Load()), [n.iter], [])),
                ast.While(ast.Constant(True), [ast.Try([ast.Assign([n.target], ast.Call(ast.Name('next', ast.Load()), [ast.Name(it, ast.Load())], []))],
                                                       [ast.ExceptHandler(ast.Name('StopIteration', ast.Load()), None, [ast.Break()])], [], [])] + n.body, [])]


class Index(ast.NodeTransformer):
    """for x in xs: -> i = 0; while i < len(lst): x = lst[i]; i += 1"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        lst, i = fresh('lst'), fresh('i')
        el = ast.Subscript(ast.Name(lst, ast.Load()), ast.Name(i, ast.Load()), ast.Load())
        return [ast.Assign([ast.Name(lst, ast.Store())], ast.Call(ast.Name('list', ast.Load()), [n.iter], [])), ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Call(ast.Name('len', ast.Load()), [ast.Name(lst, ast.Load())], [])]),
                          [ast.Assign([n.target], el), ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))] + n.body, [])]


class Range(ast.NodeTransformer):
    """for x in xs: -> for i in range(len(lst)): x = lst[i]"""
    def visit_For(self, n):
        self.generic_visit(n)
        lst, i = fresh('lst'), fresh('i')
        el = ast.Subscript(ast.Name(lst, ast.Load()), ast.Name(i, ast.Load()), ast.Load())
        before = ast.Assign([ast.Name(lst, ast.Store())], ast.Call(ast.Name('list', ast.Load()), [n.iter], []))
        n.body = [ast.Assign([n.target], el)] + n.body
        n.target = ast.Name(i, ast.Store())
        n.iter = ast.Call(ast.Name('range', ast.Load()), [ast.Call(ast.Name('len', ast.Load()), [ast.Name(lst, ast.Load())], [])], [])
        return [before, n]


class Pop(ast.NodeTransformer):
    """for x in xs: -> q = list(xs); while q: x = q.pop(0)"""
    def visit_For(self, n):
        self.generic_visit(n)
        if n.orelse:
            return n
        q = fresh('q')
        return [ast.Assign([ast.Name(q, ast.Store())], ast.Call(ast.Name('list', ast.Load()), [n.iter], [])),
                ast.While(ast.Name(q, ast.Load()), [ast.Assign([n.target], ast.Call(ast.Attribute(ast.Name(q, ast.Load()), 'pop', ast.Load()), [ast.Constant(0)], []))] + n.body, [])]


class Listed(ast.NodeTransformer):
    """for x in xs -> for x in list(xs)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.Call(ast.Name('list', ast.Load()), [n.iter], [])
        return n


class Enum(ast.NodeTransformer):
    """for x in xs -> for i, x in enumerate(xs)"""
    def visit_For(self, n):
        self.generic_visit(n)
        n.target = ast.Tuple([ast.Name(fresh('n'), ast.Store()), n.target], ast.Store())
        n.iter = ast.Call(ast.Name('enumerate', ast.Load()), [n.iter], [])
        return n


class Items(ast.NodeTransformer):
    """for k, v in d.items() -> for k in d: v = d[k]"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) and n.iter.func.attr == 'items' and isinstance(n.target, ast.Tuple) and \
                all(isinstance(x, ast.Name) for x in n.target.elts):
            d = n.iter.func.value
            if any(isinstance(x, ast.Call) for x in ast.walk(d)):
                return n
            k, v = n.target.elts
            n.iter, n.target = ast.Call(ast.Attribute(d, 'keys', ast.Load()), [], []), k
            n.body = [ast.Assign([v], ast.Subscript(d, ast.Name(k.id, ast.Load()), ast.Load()))] + n.body
        return n


class Hoist(ast.NodeTransformer):
    """self.client_get('service_context') once, at the start of a method"""
    def visit_FunctionDef(self, fn):
        def is_get(x):
            return isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'client_get' and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' and \
                len(x.args) == 1 and isinstance(x.args[0], ast.Constant) and x.args[0].value == 'service_context'
        if simple_nested(fn) or not any(is_get(x) for x in ast.walk(fn)) or fn.name.startswith('__') or any(isinstance(x, ast.Try) and any(is_get(y) for z in x.body for y in ast.walk(z)) for x in ast.walk(fn)):
            return fn

        class R(ast.NodeTransformer):
            def visit_Call(self, x):
                self.generic_visit(x)
                return ast.Name('the_cntx', ast.Load()) if is_get(x) else x
        get = next(x for x in ast.walk(fn) if is_get(x))
        get = copy.deepcopy(get)
        R().visit(fn)
        k = 1 if isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant) else 0
        fn.body.insert(k, ast.Assign([ast.Name('the_cntx', ast.Store())], get))
        return fn


class Inline(ast.NodeTransformer):
    """x = <simple expression>, used in place of x"""
    def visit_FunctionDef(self, fn):
        if simple_nested(fn):
            return fn
        for f in [x for x in ast.walk(fn) if isinstance(getattr(x, 'body', None), list)]:
            i = 0
            while i < len(f.body):
                st = f.body[i]
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name) and quiet(st.value) and \
                        (isinstance(st.value, ast.Attribute) or isinstance(st.value, ast.Call) and st.value.func.attr == 'client_get'):
                    x = st.targets[0].id
                    if sum(1 for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == x and not isinstance(n.ctx, ast.Load)) == 1 and f is fn and \
                            not any(isinstance(n, ast.Name) and n.id in loads(st.value) and isinstance(n.ctx, ast.Store) for n in ast.walk(fn)) and \
                            not (isinstance(st.value, ast.Attribute) and any(isinstance(n, ast.Attribute) and n.attr == st.value.attr and not isinstance(n.ctx, ast.Load) for n in ast.walk(fn))):
                        val = st.value

                        class R(ast.NodeTransformer):
                            def visit_Name(self, n):
                                return copy.deepcopy(val) if n.id == x and isinstance(n.ctx, ast.Load) else n
                        del f.body[i]
                        R().visit(fn)
                        continue
                i += 1
        if not fn.body:
            fn.body = [ast.Pass()]
        return fn


class Kw(ast.NodeTransformer):
    """self.f(a, b) -> self.f(x=a, y=b) for methods of the class"""
    def visit_ClassDef(self, c):
        sigs = {n.name: n.args for n in c.body if isinstance(n, ast.FunctionDef) and not n.decorator_list}
        for x in ast.walk(c):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == 'self' and x.func.attr in sigs:
                a = sigs[x.func.attr]
                ps = [p.arg for p in a.args[1:]]
                if a.vararg or any(isinstance(y, ast.Starred) for y in x.args) or len(x.args) > len(ps):
                    continue
                x.keywords = [ast.keyword(p, v) for p, v in zip(ps, x.args)] + x.keywords
                x.args = []
        return c


class Super(ast.NodeTransformer):
    """Base.method(self, ...) -> super().method(...)"""
    def visit_ClassDef(self, c):
        if len(c.bases) != 1:
            return c
        base = ast.dump(c.bases[0])
        for fn in c.body:
            if not isinstance(fn, ast.FunctionDef):
                continue
            for x in ast.walk(fn):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and ast.dump(x.func.value) == base and x.args and isinstance(x.args[0], ast.Name) and x.args[0].id == 'self':
                    x.func.value = ast.Call(ast.Name('super', ast.Load()), [], [])
                    x.args = x.args[1:]
        return c


class DeMorgan(ast.NodeTransformer):
    """a and b -> not (not a or not b), in conditions"""
    def visit_If(self, n):
        self.generic_visit(n)
        if isinstance(n.test, ast.BoolOp):
            op = ast.Or() if isinstance(n.test.op, ast.And) else ast.And()
            n.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [ast.UnaryOp(ast.Not(), v) for v in n.test.values]))
        return n


class Splat(ast.NodeTransformer):
    """{**a, **b} -> dict(a, **b) ; x = {'a': 1} -> x = dict(a=1)"""
    def visit_Dict(self, n):
        self.generic_visit(n)
        if n.keys and all(isinstance(k, ast.Constant) and isinstance(k.value, str) and k.value.isidentifier() for k in n.keys):
            return ast.Call(ast.Name('dict', ast.Load()), [], [ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(x) if isinstance(x, ast.FunctionDef) else x for x in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(x) if isinstance(x, (ast.FunctionDef, ast.ClassDef)) else x for x in n.body]
        return n


class First(ast.NodeTransformer):
    """the first statements of a method go into a helper that returns the locals set there"""
    def visit_ClassDef(self, c):
        body = []
        for n in c.body:
            body.append(n)
            if not isinstance(n, ast.FunctionDef) or n.decorator_list or n.name.startswith('__') or n.name == 'gather_verify_arguments' or len(n.body) < 4 or not n.args.args or simple_nested(n) \
                    or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Global)) for x in ast.walk(n)) or 'super' in loads(n):
                continue
            k = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
            j = k
            sure = []
            while j < len(n.body) - 1 and not any(isinstance(x, (ast.Return,)) for x in ast.walk(n.body[j])):
                j += 1
            front = n.body[k:j]
            back = n.body[j:]
            bound = own_locals(n)
            args = {x.arg for x in n.args.args + n.args.kwonlyargs} | ({n.args.kwarg.arg} if n.args.kwarg else set()) | ({n.args.vararg.arg} if n.args.vararg else set())
            stores = {x.id for st in front for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            sure = {x.id for st in front if isinstance(st, ast.Assign) for t in st.targets for x in ast.walk(t) if isinstance(x, ast.Name)} | args
            need_back = {x.id for st in back for x in ast.walk(st) if isinstance(x, ast.Name)}
            out = sorted(stores & need_back)
            if len(front) < 2 or any(x not in sure for x in out):
                continue
            me = n.args.args[0].arg
            need = sorted(({x.id for st in front for x in ast.walk(st) if isinstance(x, ast.Name)} & args) - {me})
            name = fresh(n.name)
            call = ast.Call(ast.Attribute(ast.Name(me, ast.Load()), name, ast.Load()), [ast.Name(x, ast.Load()) for x in need], [])
            if not out:
                st = ast.Expr(call)
                helper = front
            elif len(out) == 1:
                st = ast.Assign([ast.Name(out[0], ast.Store())], call)
                helper = front + [ast.Return(ast.Name(out[0], ast.Load()))]
            else:
                st = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in out], ast.Store())], call)
                helper = front + [ast.Return(ast.Tuple([ast.Name(x, ast.Load()) for x in out], ast.Load()))]
            n.body = n.body[:k] + [st] + back
            body.append(ast.FunctionDef(name, ast.arguments([], [ast.arg(me)] + [ast.arg(x) for x in need], None, [], [], None, []), helper, []))
        c.body = body
        return c


KINDS = {k.__name__: k for k in (Ret, Inv, Flat, Guard, Cmp, Nest, Cond, Fmt, Try, InTry, Comp, RetComp, Wrap, Tail, ModHelper, Rename, Noop, Alias, Args, IfExp, Upd, ToUpd, ElseIf, Log, Dictify,
                                 Walrus, Loop, Quote, Pred, Calc, Swap, While, Index, Range, Pop, Listed, Enum, Items, Hoist, Inline, Kw, Super, DeMorgan, Splat, First)}


def make(kind):
    d = os.path.join(OUT, kind)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, ignore=shutil.ignore_patterns('.git', '__pycache__'))
    n = 0
    for p in glob.glob(d + '/src/oidcrp/**/*.py', recursive=True):
        with open(p) as fp:
            text = fp.read()
        tree = ast.parse(text)
        before = ast.dump(tree)
        tree = ast.fix_missing_locations(KINDS[kind]().visit(tree))
        if ast.dump(tree) != before:
            n += 1
            with open(p, 'w') as fp:
                fp.write(ast.unparse(tree) + '\n')
    return d, n


def tests(d):
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests', '--deselect', 'x'], cwd=d, capture_output=True, text=True,
                       env={**os.environ, 'PYTHONPATH': d + '/src'})
    return r.stdout.strip().splitlines()[-1:] or r.stderr.splitlines()[-1:]


def check(d, prop):
    r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), prop], capture_output=True, text=True, env={**os.environ, 'VERIF_REPO': d, 'VERIF_NOEV': '1'}, timeout=900)
    return prop, r.returncode, r.stdout


def main():
    props = ['C%02d' % i for i in range(1,44) if os.path.exists('%s/sa/rules/c%02d.py' % (VERIF, i))]
    kinds = [a for a in sys.argv[1:] if a in KINDS] or list(KINDS)
    only = [a for a in sys.argv[1:] if a not in KINDS]
    for kind in kinds:
        d, n = make(kind)
        print('==', kind, n, 'files', *(tests(d) if not os.environ.get('NOTEST') else ()), flush=True)
        with ThreadPoolExecutor(8) as ex:
            for prop, rc, out in ex.map(lambda p: check(d, p), only or props):
                lines = [x for x in out.splitlines() if not x.startswith(('VIOLATION', 'KNOWN'))]
                if rc or 'UNDECIDED' in out:
                    print('  ', prop, rc, len(lines), *['\n       ' + x[:230] for x in lines[:3 if rc else 1]], flush=True)
        shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
