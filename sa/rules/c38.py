"""Everything a client has learned is part of what is persisted.

Dump and load are driven by a table of attribute names per class. All places that store into an attribute of an object of such a
class, or into what the attribute holds, are collected from the syntax trees of all functions: receivers are recognised by a
flow-insensitive closure over assignments, parameters and the ways to get at such an object.
"""
import ast

from ..q import *

CTX_CLS, SRV_CLS, ST_CLS = 'oidcrp.service_context.ServiceContext', 'oidcrp.service.Service', 'oidcrp.state_interface.StateInterface'
SERIAL = 'oidcmsg.impexp.ImpExp'
MUTATES = {'append', 'update', 'extend', 'insert', 'setdefault', 'pop', 'clear', 'add', 'remove', 'popitem', '__setitem__'}
# put in place when the object is made, in the same way each time: not learned
GIVEN = {'client_get', 'client_authn_factory', 'conf', 'pre_construct', 'post_construct', 'construct_extra_headers', 'post_parse_process', 'default_request_args'}


def check(ctx):
    ctx.rule('C38.learned', 'what is stored after construction is listed among what is dumped', 10)
    ctx.rule('C38.random', 'what is chosen at random on construction is listed among what is dumped', 1)
    ctx.rule('C38.exists', 'nothing is listed that the object never has', 20)
    ctx.rule('C38.kind', 'what is listed is listed as what it is', 5)
    ctx.rule('C38.plain', 'dump and load are not changed', 3)
    ctx.rule('C38.record', 'what is read back from a session record by kind is a declared part of the record', 3)
    record(ctx)
    finder = Finder(ctx)
    for dotted in (CTX_CLS, SRV_CLS, ST_CLS):
        base = ctx.prog.cls(dotted)
        for c in [c for c in ctx.prog.subclasses(dotted) if c.module.is_repo]:
            if c is not base and not any(n in c.attrs for n in ('parameter', 'special_load_dump')):
                continue
            tab = table(ctx, c)
            if tab is None:
                ctx.unclear('what is dumped of ' + c.dotted)
                continue
            persisted(ctx, finder, c, tab)
        for c in [c for c in ctx.prog.subclasses(dotted) if c.module.is_repo]:
            for n in ('dump', 'load', 'dump_attr', 'load_attr', 'flush'):
                if n in c.methods:
                    ctx.unclear('{} has its own {}'.format(c.dotted, n))
            ctx.ob('C38.plain', any(getattr(k, 'dotted', None) == SERIAL for k in ctx.prog.mro(c)), c.dotted + '.__init__', 'dump', 'can not be dumped')


def record(ctx):
    """an undeclared part of a record is not read back as the data it was, but as text"""
    declared = params_of(ctx, 'oidcrp.state_interface.State')
    if not declared:
        ctx.unclear('what a session record consists of')
        return
    for f in ctx.prog.all_functions():
        local = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        local.setdefault(t.id, []).append(n.value)
        for n in ast.walk(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and
                    (n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) == 'multiple_extend_request_args'):
                continue
            e = {k.arg: k.value for k in n.keywords}.get('item_types', n.args[3] if len(n.args) > 3 else None)
            if isinstance(e, ast.Name):
                if len(local.get(e.id, ())) == 1:
                    e = local[e.id][0]
                else:
                    r = ctx.prog.resolve_expr(f.module, e)
                    e = r[3] if r and r[0] == 'const' else None
            if not isinstance(e, (ast.List, ast.Tuple, ast.Set)):
                continue
            for x in e.elts:
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    ctx.ob('C38.record', x.value in declared, f.dotted, x.value, '{} is no declared part of a session record'.format(x.value), n.lineno)


def table(ctx, c):
    """{attribute: expression} of a class, built up in the class body"""
    for k in ctx.prog.mro(c):
        node = getattr(k, 'node', None)
        if node is None:
            continue
        got = None
        for st in node.body:
            if isinstance(st, (ast.Assign, ast.AnnAssign)) and any(isinstance(t, ast.Name) and t.id == 'parameter' for t in getattr(st, 'targets', None) or [st.target]):
                got = expr(ctx, k, st.value)
                if got is None:
                    return None
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and ast.unparse(st.value.func) == 'parameter.update' and got is not None:
                for a in st.value.args:
                    more = expr(ctx, k, a)
                    if more is None:
                        return None
                    got = {**got, **more}
                got = {**got, **{w.arg: (k.module, w.value) for w in st.value.keywords if w.arg}}
            elif isinstance(st, (ast.Assign, ast.Delete)) and any(isinstance(t, ast.Subscript) and ast.unparse(t.value) == 'parameter' for t in st.targets) and got is not None:
                for t in st.targets:
                    if not isinstance(t.slice, ast.Constant):
                        return None
                    if isinstance(st, ast.Assign):
                        got = {**got, t.slice.value: (k.module, st.value)}
                    else:
                        got = {n: v for n, v in got.items() if n != t.slice.value}
        if got is not None:
            return got
    return None


def expr(ctx, k, node):
    if isinstance(node, ast.Dict):
        res = {}
        for a, b in zip(node.keys, node.values):
            if a is None:
                more = expr(ctx, k, b)
                if more is None:
                    return None
                res.update(more)
            elif isinstance(a, ast.Constant):
                res[a.value] = (k.module, b)
            else:
                return None
        return res
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        a, b = expr(ctx, k, node.left), expr(ctx, k, node.right)
        return None if a is None or b is None else {**a, **b}
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == 'copy' and not node.args:
        return expr(ctx, k, node.func.value)
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'dict' or isinstance(node, ast.Call) and ast.unparse(node.func) == 'copy.copy':
        res = {}
        for a in node.args:
            more = expr(ctx, k, a)
            if more is None:
                return None
            res.update(more)
        for w in node.keywords:
            more = expr(ctx, k, w.value) if w.arg is None else {w.arg: (k.module, w.value)}
            if more is None:
                return None
            res.update(more)
        return res
    if isinstance(node, ast.Attribute) and node.attr == 'parameter':
        r = ctx.prog.resolve_expr(k.module, node.value)
        return table(ctx, r[1]) if r and r[0] == 'cls' else None
    if isinstance(node, ast.Name):
        r = ctx.prog.resolve_expr(k.module, node)
        if r and r[0] == 'const':
            v = r[1].bindings.get(r[2])
            return expr(ctx, k, v[1]) if v and v[0] == 'assign' else None
    return None


class Finder:
    """which expressions are objects of the classes that are dumped: {function node: {name: class}}"""

    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.funcs = [f for f in ctx.prog.all_functions() if f.module.is_repo]
        self.names = {id(f.node): {} for f in self.funcs}
        self.byname = {}
        for f in self.funcs:
            self.byname.setdefault(f.name, []).append(f)
        self.owner = {}
        for f in self.funcs:
            if f.cls is not None and 'staticmethod' not in f.decs and f.node.args.args:
                for d in (CTX_CLS, SRV_CLS, ST_CLS):
                    if any(getattr(k, 'dotted', None) == d for k in ctx.prog.mro(f.cls)):
                        self.names[id(f.node)][f.node.args.args[0].arg] = d
        changed = True
        while changed:
            changed = any([self.step(f) for f in self.funcs])

    def step(self, f):
        env, before = self.names[id(f.node)], sum(len(v) for v in self.names.values())
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign):
                c = self.cls(f, n.value)
                for t in n.targets:
                    if c and isinstance(t, ast.Name):
                        env.setdefault(t.id, c)
            elif isinstance(n, ast.NamedExpr):
                c = self.cls(f, n.value)
                if c:
                    env.setdefault(n.target.id, c)
            elif isinstance(n, ast.For):
                self.loop(f, n, env)
            elif isinstance(n, ast.Call):
                self.call(f, n)
        return sum(len(v) for v in self.names.values()) != before

    def loop(self, f, n, env):
        src = ast.unparse(n.iter)
        view = n.iter.func.attr if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Attribute) else ''
        if view in ('items', 'values') and any(x in src for x in ('get_services', '_service.', "client_get('services')", '_entity_get')):
            t = n.target.elts[-1] if isinstance(n.target, ast.Tuple) and view == 'items' else n.target
            if isinstance(t, ast.Name):
                env.setdefault(t.id, SRV_CLS)

    def call(self, f, n):
        name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
        if name.startswith('__'):
            return
        r = self.prog.resolve_expr(f.module, n.func) if isinstance(n.func, (ast.Name, ast.Attribute)) else None
        for g in [r[1]] if r and r[0] == 'func' else () if isinstance(n.func, ast.Name) else self.byname.get(name, ()):
            if id(g.node) not in self.names:
                continue
            a = g.node.args
            pos = [p.arg for p in a.posonlyargs + a.args]
            if g.cls is not None and 'staticmethod' not in g.decs and not (r and r[0] == 'func'):
                pos = pos[1:]
            allp = set(pos) | {p.arg for p in a.kwonlyargs}
            for p, v in list(zip(pos, n.args)) + [(k.arg, k.value) for k in n.keywords if k.arg in allp]:
                c = self.cls(f, v)
                if c:
                    self.names[id(g.node)].setdefault(p, c)

    def cls(self, f, e):
        if isinstance(e, ast.Name):
            return self.names[id(f.node)].get(e.id)
        if isinstance(e, ast.IfExp):
            return self.cls(f, e.body) or self.cls(f, e.orelse)
        if isinstance(e, ast.BoolOp):
            return next((c for c in (self.cls(f, v) for v in e.values) if c), None)
        if isinstance(e, ast.Attribute):
            if e.attr in ('service_context', '_service_context'):
                return CTX_CLS
            if e.attr == 'state' and self.cls(f, e.value) == CTX_CLS:
                return ST_CLS
        if isinstance(e, ast.Subscript) and ast.unparse(e.value).endswith('_service'):
            return SRV_CLS
        if isinstance(e, ast.Call):
            name = e.func.id if isinstance(e.func, ast.Name) else e.func.attr if isinstance(e.func, ast.Attribute) else ''
            first = e.args[0].value if e.args and isinstance(e.args[0], ast.Constant) else None
            if name in ('client_get', '_client_get', 'entity_get', '_entity_get'):
                return CTX_CLS if first == 'service_context' else SRV_CLS if first in ('service', 'service_by_endpoint_name') else None
            if name == 'get_service_context':
                return CTX_CLS
            if name in ('get_service', 'get_service_by_endpoint_name'):
                return SRV_CLS
            r = self.prog.resolve_expr(f.module, e.func)
            if r and r[0] == 'cls':
                for d in (CTX_CLS, SRV_CLS, ST_CLS):
                    if any(getattr(k, 'dotted', None) == d for k in self.prog.mro(r[1])):
                        return d
        return None

    def stores(self, want):
        """[(func, attribute, value or None, line)] of everything stored into an attribute of such an object, or into what it holds"""
        res = []
        for f in self.funcs:
            for n in ast.walk(f.node):
                targets = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                for t in targets:
                    for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                        v = getattr(n, 'value', None) if x is t else None
                        if isinstance(x, ast.Attribute) and self.cls(f, x.value) == want:
                            res.append((f, x.attr, v, n.lineno))
                        elif isinstance(x, ast.Subscript):
                            if isinstance(x.value, ast.Attribute) and self.cls(f, x.value.value) == want:
                                res.append((f, x.value.attr, None, n.lineno))
                            elif want == CTX_CLS and self.cls(f, x.value) == want and isinstance(x.slice, ast.Constant):
                                res.append((f, x.slice.value, v, n.lineno))
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    if n.func.attr == 'set' and want == CTX_CLS and self.cls(f, n.func.value) == want and len(n.args) == 2 and isinstance(n.args[0], ast.Constant):
                        res.append((f, n.args[0].value, n.args[1], n.lineno))
                    elif n.func.attr in MUTATES and isinstance(n.func.value, ast.Attribute) and self.cls(f, n.func.value.value) == want:
                        res.append((f, n.func.value.attr, None, n.lineno))
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                    if self.cls(f, n.args[0]) == want:
                        res.append((f, n.args[1].value, n.args[2], n.lineno))
        return res


def in_ctor(f):
    return f.cls is not None and f.name == '__init__'


def assigned(f, name):
    """the expressions a local name is assigned"""
    return [n.value for n in ast.walk(f.node) if isinstance(n, (ast.Assign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None and
            any(isinstance(t, ast.Name) and t.id == name for t in getattr(n, 'targets', None) or [n.target])]


def random_value(ctx, f, v, seen=()):
    for n in ast.walk(v) if v is not None else ():
        if isinstance(n, ast.Call):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if name.startswith(('rndstr', 'token_', 'urandom', 'uuid', 'randbits', 'unreserved', 'sec_random')):
                return True
        if isinstance(n, ast.Name) and n.id not in seen and any(random_value(ctx, f, x, seen + (n.id,)) for x in assigned(f, n.id)):
            return True
    return False


def persisted(ctx, finder, c, tab):
    base = next(d for d in (CTX_CLS, SRV_CLS, ST_CLS) if any(getattr(k, 'dotted', None) == d for k in ctx.prog.mro(c)))
    stores = finder.stores(base)
    ctx.notes.append('{}: {} stores into {} attributes'.format(c.dotted, len(stores), len({a for _, a, _, _ in stores})))
    for f, a, v, line in stores:
        ctx.analysed.add(f.dotted)
        if a in GIVEN and base == SRV_CLS:
            continue
        if not in_ctor(f):
            ctx.ob('C38.learned', a in tab, f, a, 'is stored after construction but not dumped', line)
        elif random_value(ctx, f, v):
            ctx.ob('C38.random', a in tab, f, a, 'is chosen at random but not dumped', line)
    stored = {a for _, a, _, _ in stores}
    for a in tab:
        ok = a in stored
        for k in ctx.prog.mro(c):
            node = getattr(k, 'node', None)
            if ok or node is None or not (k.module.is_repo or k.dotted.startswith('oidcmsg.context')):
                continue
            # a class attribute, or a name that a loop of a method goes over
            ok = a in k.attrs or any(isinstance(n, ast.Constant) and n.value == a for m in k.methods.values() for n in ast.walk(m.node if hasattr(m, 'node') else m))
            ok = ok or any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store) for m in k.methods.values() for n in ast.walk(m.node if hasattr(m, 'node') else m))
        ok = ok or any(isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Store) for f in finder.funcs for n in ast.walk(f.node))
        # ... or a name in a table of the module
        ok = ok or any(isinstance(n, ast.Constant) and n.value == a for k in ctx.prog.mro(c) if getattr(k, 'module', None) is not None and k.module.is_repo
                       for st in k.module.tree.body if isinstance(st, (ast.Assign, ast.AnnAssign)) for n in ast.walk(st))
        ctx.ob('C38.exists', ok, c.dotted + '.__init__', a, 'is listed but never set')
    for f, a, v, line in stores:
        if v is None or a in GIVEN:
            continue
        if a not in tab:
            for x in v.values if isinstance(v, ast.BoolOp) else [v]:
                ctx.ob('C38.learned', made_of(ctx, f, x) in (None, 'bytes'), f, a, 'has much to dump but is not listed', line)
            continue
        mod, kind = tab[a]
        for x in v.values if isinstance(v, ast.BoolOp) else [v]:
            made = made_of(ctx, f, x)
            if made is None:
                continue
            if made == 'bytes':
                ok = isinstance(kind, ast.Constant) and kind.value == b''
            else:
                r = ctx.prog.resolve_expr(mod, kind) if isinstance(kind, (ast.Name, ast.Attribute)) else None
                ok = bool(r and r[0] == 'cls' and any(k is r[1] for k in ctx.prog.mro(made)))
            ctx.ob('C38.kind', ok, f, a, 'is listed as {} but is {}'.format(ast.unparse(kind), made if made == 'bytes' else made.dotted), line)
    if base == SRV_CLS:
        for a, (mod, kind) in tab.items():
            for k in [k for k in ctx.prog.subclasses(SRV_CLS) if k.module.is_repo]:
                ca = ctx.prog.class_attr(k, a)
                if ca is None or not isinstance(ca[1], (ast.Name, ast.Attribute)):
                    continue
                r = ctx.prog.resolve_expr(ca[0].module, ca[1])
                if r and r[0] == 'cls':
                    ctx.ob('C38.kind', isinstance(kind, ast.Name) and kind.id == 'object', k.dotted + '.__init__', a, 'is a class but listed as ' + ast.unparse(kind))
                    break


def made_of(ctx, f, v):
    """'bytes', the class of objects that have a dump of their own, or None"""
    if isinstance(v, ast.Name) and len(assigned(f, v.id)) == 1:
        v = assigned(f, v.id)[0]
    if isinstance(v, ast.Call):
        n = v.func.id if isinstance(v.func, ast.Name) else v.func.attr if isinstance(v.func, ast.Attribute) else ''
        if n in ('as_bytes', 'encode'):
            return 'bytes'
        r = ctx.prog.resolve_expr(f.module, v.func)
        if r and r[0] == 'cls' and ctx.prog.find_method(r[1], 'dump') is not None and ctx.prog.find_method(r[1], 'load') is not None:
            return r[1]
    if isinstance(v, ast.Constant) and isinstance(v.value, bytes):
        return 'bytes'
    return None
