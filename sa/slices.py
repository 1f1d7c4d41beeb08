"""Backward slices over the syntax trees of the whole program: what can a value have come from?
Neither the order of statements nor the calling context matters, so everything a value can come from is found
within the repository, and more; the answer is used where nothing of a kind may be found."""
import ast
import builtins

MUTATORS = {'append': 0, 'add': 0, 'extend': 0, 'update': 0, 'insert': 1, 'setdefault': 1, 'appendleft': 0}
COMMON = {n for t in (dict, list, str, set, bytes) for n in dir(t)} | {'close', 'read', 'write', 'set', 'load', 'dump'}


class Scope:
    def __init__(self, module, node, parent, cls):
        self.module, self.node, self.parent, self.cls = module, node, parent, cls
        self.defs = {}
        self.calls = []
        self.returns = []
        self.params = []
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            a = node.args
            self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
            self.star = a.vararg.arg if a.vararg else None
            self.dstar = a.kwarg.arg if a.kwarg else None
        else:
            self.star = self.dstar = None

    @property
    def name(self):
        n = getattr(self.node, 'name', '<lambda>' if isinstance(self.node, ast.Lambda) else '<module>')
        own = n if not self.cls else self.cls + '.' + n
        return own

    @property
    def dotted(self):
        return self.module.name + '.' + self.name

    def all_params(self):
        return self.params + [x for x in (self.star, self.dstar) if x]


class Code:
    """an index of the syntax trees of some modules"""

    def __init__(self, modules):
        self.scopes, self.attrs, self.named, self.called = [], {}, {}, {}
        for m in modules:
            top = Scope(m, m.tree, None, None)
            self.scopes.append(top)
            self._body(top, m.tree.body, None)

    # ------------------------------------------------------------------ building
    def _body(self, scope, nodes, cls):
        for n in nodes:
            self._node(scope, n, cls)

    def _node(self, scope, n, cls):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            inner = Scope(scope.module, n, scope, cls if not isinstance(n, ast.Lambda) else None)
            self.scopes.append(inner)
            for d in getattr(n, 'decorator_list', []) + n.args.defaults + [x for x in n.args.kw_defaults if x]:
                self._node(scope, d, cls)
            a = n.args
            pos = a.posonlyargs + a.args
            for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
                if d is not None:
                    inner.defs.setdefault(p.arg, []).append((scope, d))
            if isinstance(n, ast.Lambda):
                inner.returns.append(n.body)
                self._node(inner, n.body, None)
            else:
                self.named.setdefault(n.name, []).append(inner)
                self._body(inner, n.body, None)
            return
        if isinstance(n, ast.ClassDef):
            for x in n.bases + n.decorator_list + [k.value for k in n.keywords]:
                self._node(scope, x, cls)
            for st in n.body:
                if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
                    for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                        if isinstance(t, ast.Name):
                            self.attrs.setdefault(t.id, []).append((scope, st.value))
            self._body(scope, n.body, n.name)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                self._store(scope, t, n.value)
        elif isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.NamedExpr)) and n.value is not None:
            self._store(scope, n.target, n.value)
        elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
            self._store(scope, n.target, n.iter)
        elif isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                if i.optional_vars is not None:
                    self._store(scope, i.optional_vars, i.context_expr)
        elif isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None:
            scope.returns.append(n.value)
        elif isinstance(n, ast.Call):
            scope.calls.append(n)
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if name:
                self.called.setdefault(name, []).append((scope, n))
            if isinstance(f, ast.Attribute) and f.attr in MUTATORS:
                for a in n.args[MUTATORS[f.attr]:]:
                    self._store(scope, f.value, a)
                for k in n.keywords:
                    self._store(scope, f.value, k.value)
            if isinstance(f, ast.Name) and f.id == 'setattr' and len(n.args) == 3 and isinstance(n.args[1], ast.Constant):
                self.attrs.setdefault(n.args[1].value, []).append((scope, n.args[2]))
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                scope.defs.setdefault((al.asname or al.name).split('.')[0], []).append((scope, n))
        for c in ast.iter_child_nodes(n):
            self._node(scope, c, cls)

    def _store(self, scope, t, value):
        if isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
                for a, b in zip(t.elts, value.elts):
                    self._store(scope, a, b)
            else:
                for a in t.elts:
                    self._store(scope, a, value)
        elif isinstance(t, ast.Starred):
            self._store(scope, t.value, value)
        elif isinstance(t, ast.Name):
            scope.defs.setdefault(t.id, []).append((scope, value))
        elif isinstance(t, ast.Subscript):
            self._store(scope, t.value, value)
        elif isinstance(t, ast.Attribute):
            self.attrs.setdefault(t.attr, []).append((scope, value))

    # ------------------------------------------------------------------ names
    def path(self, scope, e):
        """dotted name of something imported or built in, through aliases"""
        return self._path(scope, e, 0)

    def _path(self, scope, e, depth):
        if depth > 8:
            return None
        if isinstance(e, ast.Attribute):
            p = self._path(scope, e.value, depth + 1)
            return p + '.' + e.attr if p else None
        if isinstance(e, ast.Call):
            p = self._path(scope, e.func, depth + 1)
            a = [x.value if isinstance(x, ast.Constant) else None for x in e.args]
            if p in ('builtins.__import__', 'importlib.import_module') and a and isinstance(a[0], str):
                return a[0]
            if p == 'builtins.getattr' and len(a) > 1 and isinstance(a[1], str):
                b = self._path(scope, e.args[0], depth + 1)
                return b + '.' + a[1] if b else None
            return None
        if not isinstance(e, ast.Name):
            return None
        s = scope
        while s is not None:
            if e.id in s.all_params():
                return None
            if e.id in s.defs:
                for where, v in s.defs[e.id]:
                    if isinstance(v, ast.Import):
                        for al in v.names:
                            if al.asname == e.id:
                                return al.name
                            if al.asname is None and al.name.split('.')[0] == e.id:
                                return e.id
                    elif isinstance(v, ast.ImportFrom):
                        for al in v.names:
                            if (al.asname or al.name) == e.id:
                                return (s.module._from_base(v) or '') + '.' + al.name
                    elif isinstance(v, (ast.Name, ast.Attribute, ast.Call)) and v is not e:
                        p = self._path(where, v, depth + 1)
                        if p:
                            return p
                return None
            s = s.parent
        if any(x.module is scope.module and x.parent and x.parent.parent is None and not x.cls for x in self.named.get(e.id, ())):
            return scope.module.name + '.' + e.id
        return 'builtins.' + e.id if hasattr(builtins, e.id) else None

    # ------------------------------------------------------------------ slices
    def origins(self, scope, expr, source):
        """[(why, path)] of everything the value of an expression may have come from that is a source"""
        todo, seen, res = [((scope, expr), None)], set(), []
        n = 0
        while todo:
            (sc, e), back = todo.pop()
            key = (id(sc), id(e)) if isinstance(e, ast.AST) else (id(sc), e)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            me = ((sc, e), back)
            why = source(self, sc, e)
            if why:
                res.append((why, trail(me)))
                continue
            for nxt in self.before(sc, e):
                todo.append((nxt, me))
        return res, n

    def before(self, sc, e):
        if isinstance(e, tuple):                # ('param', name) of a scope
            return list(self.given(sc, e[1]))
        if isinstance(e, ast.Name):
            s = sc
            while s is not None:
                res = [(w, v) for w, v in s.defs.get(e.id, ()) if not isinstance(v, (ast.Import, ast.ImportFrom))]
                if e.id in s.all_params():
                    res.append((s, ('param', e.id)))
                if res or e.id in s.defs:
                    return res
                s = s.parent
            return []
        if isinstance(e, ast.Attribute):
            res = list(self.attrs.get(e.attr, ()))
            if not (isinstance(e.value, ast.Name) and e.value.id == 'self'):
                res.append((sc, e.value))
            return res
        if isinstance(e, ast.Subscript):
            return [(sc, e.value)]
        if isinstance(e, ast.Call):
            res = [(sc, a) for a in e.args] + [(sc, k.value) for k in e.keywords]
            f = e.func
            if isinstance(f, ast.Attribute):
                res.append((sc, f.value))
            for g in self.targets(sc, f):
                res.extend((g, r) for r in g.returns)
            return res
        if isinstance(e, ast.IfExp):
            return [(sc, e.body), (sc, e.orelse)]
        if isinstance(e, ast.Dict):
            return [(sc, v) for v in e.values]
        if isinstance(e, (ast.Lambda, ast.Compare)):
            return []
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp)):
            return [(sc, e.elt)]
        if isinstance(e, ast.DictComp):
            return [(sc, e.value)]
        if isinstance(e, ast.AST):
            return [(sc, c) for c in ast.iter_child_nodes(e) if isinstance(c, (ast.expr, ast.keyword, ast.FormattedValue))]
        return []

    def targets(self, sc, f):
        """functions of the repository a call may reach, by name"""
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        own = isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ('self', 'cls')
        for g in self.named.get(name, ()):
            if g.cls is None or own or isinstance(f, ast.Attribute) and name not in COMMON:
                yield g

    def given(self, g, p):
        """what is given for a parameter, by all calls that may reach the function"""
        name = getattr(g.node, 'name', None)
        if name is None:
            return
        names = [name] if name != '__init__' else [g.cls]
        for n in names:
            for sc, c in self.called.get(n, ()):
                if name != '__init__' and g not in self.targets(sc, c.func):
                    continue
                pos = list(g.params)
                if g.cls and pos and pos[0] in ('self', 'cls') and not self.unbound(sc, c):
                    pos = pos[1:]
                bound, star = set(), False
                for i, a in enumerate(c.args):
                    star = star or isinstance(a, ast.Starred)
                    if star and p not in bound or not star and (i >= len(pos) and g.star == p or i < len(pos) and pos[i] == p):
                        yield sc, a
                    if not star and i < len(pos):
                        bound.add(pos[i])
                bound |= {k.arg for k in c.keywords}
                for k in c.keywords:
                    if k.arg is None and p not in bound or k.arg == p or g.dstar == p and k.arg is not None and k.arg not in pos:
                        yield sc, k.value

    @staticmethod
    def unbound(sc, c):
        return isinstance(c.func, ast.Attribute) and bool(c.args) and isinstance(c.args[0], ast.Name) and \
            c.args[0].id == 'self' and isinstance(c.func.value, (ast.Name, ast.Attribute)) and \
            not (isinstance(c.func.value, ast.Name) and c.func.value.id == 'self')


def trail(me):
    res = []
    while me is not None:
        (sc, e), me = me
        res.append('{}:{}'.format(sc.name, getattr(e, 'lineno', e[1] if isinstance(e, tuple) else '?')))
    res.reverse()
    return [r for i, r in enumerate(res) if i == 0 or r != res[i - 1]]
