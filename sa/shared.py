"""What may be reached from data that everybody shares, and who modifies it.

A points-to analysis in the style of Andersen, restricted to the objects that matter: mutable values bound at module or
class level, mutable default values of parameters, and the settings of the handler. A label (site, kind) says that a value
may be the shared object itself (S), something nested inside it (N), or a private container that holds such things (P).
Local variables are treated in the order of the statements; attributes, parameters and results are global to the program
and the whole is iterated until nothing changes."""
import ast
import builtins

MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add',
            'discard', '__setitem__', '__delitem__', 'appendleft', 'difference_update', 'intersection_update'}
LOADERS = {'get', 'pop', 'setdefault', 'popitem', '__getitem__'}
VIEWS = {'items', 'values', 'keys'}
COPIES = {'copy'}
FRESH_CTORS = {'dict', 'list', 'set', 'tuple', 'sorted', 'reversed', 'OrderedDict', 'frozenset', 'iter', 'defaultdict'}
MUTABLE_CTORS = {'dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'Counter', 'deque', 'bytearray'}
LIB_CLASS_ATTRS = {'c_param', 'c_default', 'c_allowed_values', 'c_possible_values'}
COMMON = MUTATORS | LOADERS | VIEWS | COPIES | {'split', 'join', 'format', 'strip', 'lower', 'encode', 'decode', 'startswith', 'endswith'}
EMPTY = frozenset()


def mutable(node):
    """-> None, or whether mutable things are nested in it"""
    if isinstance(node, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return any(mutable(x) is not None or isinstance(x, (ast.Name, ast.Call, ast.Attribute)) for x in ast.iter_child_nodes(node)
                   if isinstance(x, ast.expr)) or isinstance(node, (ast.ListComp, ast.DictComp, ast.SetComp))
    if isinstance(node, ast.Tuple):
        return True if any(mutable(x) is not None for x in node.elts) else None
    if isinstance(node, ast.Call):
        n = node.func.id if isinstance(node.func, ast.Name) else node.func.attr if isinstance(node.func, ast.Attribute) else ''
        if n in MUTABLE_CTORS or n in ('deepcopy', 'copy', 'fromkeys'):
            return True
    return None


class Shared:
    def __init__(self, prog, handler='oidcrp.rp_handler.RPHandler', settings=()):
        self.prog = prog
        self.handler = handler
        self.settings = set(settings)
        self.sites = {}         # site -> nested?
        self.params = {}        # (func node id, name) -> labels
        self.results = {}       # func node id -> labels
        self.attrs = {}         # (class root, attr) -> labels
        self.byattr = {}        # attr -> labels
        self.kwparams = {}      # func node id -> {name: labels} of what is passed as **
        self.mutations = {}     # (func dotted, line, text, site) -> kind
        self.nexpr = 0
        self.stores = 0
        self.changed = False
        self.funcs = list(prog.all_functions())
        self.methods = {}
        for f in self.funcs:
            if f.cls is not None:
                self.methods.setdefault(f.name, []).append(f)
        self.ctor_attrs = {}
        self._collect()

    # ------------------------------------------------------------------ sites
    def _collect(self):
        self.globals = {}
        for m in self.prog.repo_modules:
            for name, b in m.bindings.items():
                if b[0] == 'assign':
                    nested = mutable(b[1])
                    if nested is not None:
                        site = m.name + '.' + name
                        self.globals[(m.name, name)] = site
                        self.sites[site] = nested
        self.clsattrs = {}
        for c in self.prog.all_classes():
            for name, v in c.attrs.items():
                nested = mutable(v)
                if nested is not None:
                    site = c.dotted + '.' + name
                    self.clsattrs[(c.dotted, name)] = site
                    self.sites[site] = nested
        for f in self.funcs:
            a = f.node.args
            pairs = list(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1])) + \
                [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
            for n, d in pairs:
                nested = mutable(d)
                if nested is not None:
                    site = '{}({}=)'.format(f.dotted, n)
                    self.sites[site] = nested
                    self.params[(id(f.node), n)] = frozenset([(site, 'S')])
                elif isinstance(d, (ast.Name, ast.Attribute)):
                    lab = self._global_expr(f.module, d)
                    if lab:
                        self.params[(id(f.node), n)] = lab
        for x in LIB_CLASS_ATTRS:
            self.sites['Message.' + x] = True
        for x in self.settings:
            self.sites[self.handler + '.' + x] = x != 'httpc_params'

    def _global_expr(self, module, node):
        r = self.prog.resolve_expr(module, node)
        if r and r[0] == 'const':
            site = self.globals.get((r[1].name, r[2]))
            if site:
                return frozenset([(site, 'S')])
        return EMPTY

    # kinds: S, N, P (a private container of unknown depth) and k=<key>/<kind>, a private container with that under a key
    def load(self, labels, key=None):
        """what is found in a container, under a key if it is known"""
        res = set()
        for s, k in labels:
            if k in ('S', 'N'):
                if self.sites.get(s, True):
                    res.add((s, 'N'))
            elif k == 'P':
                res |= {(s, 'N'), (s, 'P')}
            else:
                q, _, inner = k[2:].rpartition('/')
                if key is None or q == '*' or q == str(key):
                    res.add((s, inner))
        return frozenset(res)

    def wrap(self, labels, key=None):
        """a new container that holds this"""
        return frozenset((s, 'k={}/{}'.format('*' if key is None else key, k if k in ('S', 'N') else 'P')) for s, k in labels)

    def shallow(self, labels):
        """a new container with the same content"""
        return frozenset((s, 'k=*/N') if k in ('S', 'N') else (s, k) for s, k in labels if k != 'S' or self.sites.get(s, True))

    # ------------------------------------------------------------------ fixpoint
    def solve(self, rounds=12):
        for _ in range(rounds):
            self.changed = False
            self.mutations = {}
            for f in self.funcs:
                self.visit(f)
            if not self.changed:
                return True
        return False

    def bump(self, table, key, labels):
        if not labels:
            return
        old = table.get(key, EMPTY)
        new = old | labels
        if new != old:
            table[key] = new
            self.changed = True

    def root(self, cls):
        return self.prog.mro(cls)[-1].dotted

    def ctor_sets(self, cls, attr):
        """is the attribute given to every instance by a constructor?"""
        key = (cls.dotted, attr)
        if key not in self.ctor_attrs:
            res = False
            for c in self.prog.mro(cls):
                n = c.methods.get('__init__')
                if n is not None:
                    for st in n.body:
                        if isinstance(st, (ast.Assign, ast.AnnAssign)):
                            for t in (st.targets if isinstance(st, ast.Assign) else [st.target]):
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self' and t.attr == attr:
                                    res = True
            self.ctor_attrs[key] = res
        return self.ctor_attrs[key]

    def visit(self, f, outer=None):
        env = dict(outer or {})
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in names:
            env[n] = self.params.get((id(f.node), n), EMPTY)
        if a.vararg:
            env[a.vararg.arg] = self.params.get((id(f.node), '*'), EMPTY)
        if a.kwarg:
            env[a.kwarg.arg] = self.params.get((id(f.node), '**'), EMPTY)
        w = Walker(self, f, env)
        w.block(f.node.body)
        self.nexpr += w.n


class Walker:
    def __init__(self, sh, f, env):
        self.sh, self.f, self.env = sh, f, env
        self.prog = sh.prog
        self.mod = f.module
        self.n = 0
        self.globals = set()
        self.clsalias = {}
        self.keys = {}
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        self.selfname = pos[0] if f.cls is not None and pos and 'staticmethod' not in f.decs and 'classmethod' not in f.decs else None
        self.clsname = pos[0] if f.cls is not None and pos and 'classmethod' in f.decs else None

    # ------------------------------------------------------------------ statements
    def block(self, body):
        for st in body:
            self.stmt(st)

    def join(self, a, b):
        res = {}
        for k in set(a) | set(b):
            res[k] = a.get(k, EMPTY) | b.get(k, EMPTY)
        return res

    def stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            from .loader import Func
            self.sh.visit(Func(self.mod, st, None, self.f.name + '.' + st.name), self.env)
            return
        if isinstance(st, ast.ClassDef):
            return
        if isinstance(st, ast.Global):
            self.globals |= set(st.names)
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.assign(t, v, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value), st.value)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value)
            old = self.ev_target(st.target)
            if any(k in ('S', 'N') for _, k in old):
                self.mutate(old, st, st.target)
            self.assign(st.target, old | self.sh.shallow(v), None)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value), st, t)
                elif isinstance(t, ast.Name):
                    self.env.pop(t.id, None)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                self.sh.bump(self.sh.results, id(self.f.node), self.ev(st.value))
        elif isinstance(st, ast.Expr):
            if isinstance(st.value, (ast.Yield, ast.YieldFrom)) and st.value.value is not None:
                v = self.ev(st.value.value)
                self.sh.bump(self.sh.results, id(self.f.node), self.sh.wrap(v))
            else:
                self.ev(st.value)
        elif isinstance(st, ast.If):
            self.ev(st.test)
            base = dict(self.env)
            self.block(st.body)
            one, self.env = self.env, base
            self.block(st.orelse)
            ends = [isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) if b else False for b in (st.body, st.orelse)]
            if ends[0] and not ends[1]:
                pass
            elif ends[1] and not ends[0]:
                self.env = one
            else:
                self.env = self.join(one, self.env)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter)
            for _ in range(2):
                base = dict(self.env)
                self.bind_iter(st.target, it, st.iter)
                self.block(st.body)
                self.env = self.join(base, self.env)
            self.block(st.orelse)
        elif isinstance(st, ast.While):
            for _ in range(2):
                base = dict(self.env)
                self.ev(st.test)
                self.block(st.body)
                self.env = self.join(base, self.env)
            self.block(st.orelse)
        elif isinstance(st, ast.Try) or type(st).__name__ == 'TryStar':
            base = dict(self.env)
            self.block(st.body)
            body = self.env
            mid = self.join(base, body)
            self.block(st.orelse)
            res = self.env
            for h in st.handlers:
                self.env = dict(mid)
                self.block(h.body)
                if not (h.body and isinstance(h.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))):
                    res = self.join(res, self.env)
            self.env = res
            self.block(st.finalbody)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = self.ev(i.context_expr)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, v, None)
            self.block(st.body)
        elif isinstance(st, ast.Match):
            self.ev(st.subject)
            base = dict(self.env)
            res = dict(base)
            for c in st.cases:
                self.env = dict(base)
                self.block(c.body)
                res = self.join(res, self.env)
            self.env = res
        else:
            for x in ast.iter_child_nodes(st):
                if isinstance(x, ast.expr):
                    self.ev(x)

    def bind_iter(self, target, labels, node):
        views = isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr
        inner = self.sh.load(labels)
        lit = node
        if isinstance(lit, ast.Name) and lit.id not in self.env:
            r = self.prog.resolve(self.mod, lit.id)
            lit = r[3] if r and r[0] == 'const' else lit
        if isinstance(target, ast.Name) and isinstance(lit, (ast.List, ast.Tuple, ast.Set)):
            self.keys[target.id] = [x.value for x in lit.elts if isinstance(x, ast.Constant)]
        if views == 'items' and isinstance(node.func.value, ast.Name) and self.f.node.args.kwarg and \
                node.func.value.id == self.f.node.args.kwarg.arg and isinstance(target, ast.Tuple) and isinstance(target.elts[0], ast.Name):
            self.keys[target.elts[0].id] = '**'
        fname = node.func.id if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) else ''
        if fname == 'enumerate' and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            self.assign(target.elts[0], EMPTY, None)
            self.bind_iter(target.elts[1], labels, node.args[0])
        elif fname == 'zip' and isinstance(target, ast.Tuple) and len(target.elts) == len(node.args):
            for x, n in zip(target.elts, node.args):
                self.assign(x, self.sh.load(self.ev(n)), None)
        elif views == 'items' and isinstance(target, ast.Tuple) and len(target.elts) == 2:
            self.assign(target.elts[0], EMPTY, None)
            self.assign(target.elts[1], inner, None)
        elif views == 'keys':
            self.assign(target, EMPTY, None)
        else:
            self.assign(target, inner, None)

    def assign(self, t, v, node):
        sh = self.sh
        if isinstance(t, ast.Name):
            if t.id in self.globals:
                site = self.mod.name + '.' + t.id
                self.report(site, t, 'S')
            own = self.owner(node) if isinstance(node, (ast.Attribute, ast.Call, ast.Name)) else None
            if own is not None and own[0] in ('cls', 'anycls', 'mod'):
                self.clsalias[t.id] = own
            else:
                self.clsalias.pop(t.id, None)
            self.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(node, (ast.Tuple, ast.List)) and len(node.elts) == len(t.elts):
                for x, n in zip(t.elts, node.elts):
                    self.assign(x, self.ev(n), n)
            else:
                for i, x in enumerate(t.elts):
                    self.assign(x, sh.load(v, i), None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, sh.shallow(v), None)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value)
            self.ev(t.slice)
            self.mutate(base, t, t)
            self.hold(t.value, sh.wrap(v, t.slice.value if isinstance(t.slice, ast.Constant) else None))
        elif isinstance(t, ast.Attribute):
            self.set_attr(t, v)

    def hold(self, cont, p):
        """a container is given something"""
        if not p:
            return
        if isinstance(cont, ast.Name):
            self.env[cont.id] = self.env.get(cont.id, EMPTY) | p
        elif isinstance(cont, ast.Attribute):
            self.set_attr(cont, p)
        elif isinstance(cont, ast.Subscript):
            self.hold(cont.value, self.sh.wrap(p, cont.slice.value if isinstance(cont.slice, ast.Constant) else None))

    def set_attr(self, t, v):
        sh = self.sh
        sh.stores += 1
        owner = self.owner(t.value)
        if owner is not None and owner[0] == 'cls':
            site = owner[1].dotted + '.' + t.attr
            self.report(site, t, 'S')
            return
        if owner is not None and owner[0] == 'mod':
            self.report(owner[1] + '.' + t.attr, t, 'S')
            return
        if owner is not None and owner[0] == 'anycls':
            self.report('{}.{}'.format(owner[1], t.attr), t, 'S')
            return
        if owner is not None and owner[0] == 'self':
            sh.bump(sh.attrs, (sh.root(self.f.cls), t.attr), v)
        else:
            self.ev(t.value)
            sh.bump(sh.attrs, ('?', t.attr), v)
        sh.bump(sh.byattr, t.attr, v)

    def owner(self, node):
        if isinstance(node, ast.Name):
            if node.id == self.selfname and node.id not in ('',):
                return ('self',)
            if node.id == self.clsname:
                return ('cls', self.f.cls)
            if node.id in self.clsalias:
                return self.clsalias[node.id]
            if node.id in self.env:
                return None
            r = self.prog.resolve(self.mod, node.id)
            if r and r[0] == 'cls':
                return ('cls', r[1])
            if r and r[0] == 'mod' and self.prog.module(r[1]) is not None:
                return ('mod', r[1])
        if isinstance(node, ast.Attribute):
            if node.attr == '__class__':
                return ('cls', self.f.cls) if self.f.cls is not None and self.owner(node.value) == ('self',) else \
                    ('anycls', ast.unparse(node))
            r = self.prog.resolve_expr(self.mod, node) if self.plain(node) else None
            if r and r[0] == 'cls':
                return ('cls', r[1])
            if r and r[0] == 'mod':
                return ('mod', r[1])
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == 'type' and len(node.args) == 1:
            return ('cls', self.f.cls) if self.f.cls is not None and self.owner(node.args[0]) == ('self',) else \
                ('anycls', ast.unparse(node))
        return None

    def plain(self, node):
        while isinstance(node, ast.Attribute):
            node = node.value
        return isinstance(node, ast.Name) and node.id not in self.env and node.id != self.selfname

    # ------------------------------------------------------------------ mutations
    def mutate(self, labels, node, what):
        for s, k in labels:
            if k in ('S', 'N'):
                self.report(s, node, k)

    def report(self, site, node, kind):
        key = (self.f.dotted, getattr(node, 'lineno', 0), site)
        self.sh.mutations[key] = (kind, self.f)

    # ------------------------------------------------------------------ expressions
    def ev_target(self, t):
        if isinstance(t, ast.Name):
            if t.id in self.env:
                return self.env[t.id]
            return self.name(t)
        if isinstance(t, ast.Subscript):
            return self.sh.load(self.ev(t.value), t.slice.value if isinstance(t.slice, ast.Constant) else None)
        if isinstance(t, ast.Attribute):
            return self.ev(t)
        return EMPTY

    def name(self, node):
        if node.id in self.env:
            return self.env[node.id]
        return self.sh._global_expr(self.mod, node)

    def ev(self, node):
        self.n += 1
        sh = self.sh
        if isinstance(node, ast.Name):
            return self.name(node)
        if isinstance(node, ast.Constant):
            return EMPTY
        if isinstance(node, ast.Attribute):
            return self.attr(node)
        if isinstance(node, ast.Subscript):
            b = self.ev(node.value)
            self.ev(node.slice)
            if isinstance(node.slice, ast.Slice):
                return sh.shallow(b)
            return sh.load(b, node.slice.value if isinstance(node.slice, ast.Constant) else None)
        if isinstance(node, ast.Call):
            return self.call(node)
        if isinstance(node, ast.BoolOp):
            return frozenset().union(*[self.ev(v) for v in node.values])
        if isinstance(node, ast.IfExp):
            self.ev(node.test)
            return self.ev(node.body) | self.ev(node.orelse)
        if isinstance(node, ast.NamedExpr):
            v = self.ev(node.value)
            self.assign(node.target, v, node.value)
            return v
        if isinstance(node, (ast.List, ast.Tuple, ast.Set)):
            tup = isinstance(node, ast.Tuple) and not any(isinstance(v, ast.Starred) for v in node.elts)
            return frozenset().union(EMPTY, *[sh.shallow(self.ev(v)) if isinstance(v, ast.Starred) else
                                              sh.wrap(self.ev(v), i if tup else None) for i, v in enumerate(node.elts)])
        if isinstance(node, ast.Dict):
            res = EMPTY
            for k, v in zip(node.keys, node.values):
                if k is None:
                    res = res | sh.shallow(self.ev(v))
                else:
                    self.ev(k)
                    res = res | sh.wrap(self.ev(v), k.value if isinstance(k, ast.Constant) else None)
            return res
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            saved = dict(self.env)
            for g in node.generators:
                self.bind_iter(g.target, self.ev(g.iter), g.iter)
                for c in g.ifs:
                    self.ev(c)
            if isinstance(node, ast.DictComp):
                self.ev(node.key)
                v = self.ev(node.value)
            else:
                v = self.ev(node.elt)
            self.env = saved
            return sh.wrap(v)
        if isinstance(node, ast.BinOp):
            return sh.shallow(self.ev(node.left) | self.ev(node.right)) if isinstance(node.op, (ast.Add, ast.BitOr, ast.Mult)) else \
                (self.ev(node.left), self.ev(node.right), EMPTY)[2]
        if isinstance(node, ast.Starred):
            return self.ev(node.value)
        if isinstance(node, (ast.Lambda,)):
            return EMPTY
        for x in ast.iter_child_nodes(node):
            if isinstance(x, ast.expr):
                self.ev(x)
        return EMPTY

    def attr(self, node):
        sh = self.sh
        if node.attr in LIB_CLASS_ATTRS:
            own = self.owner(node.value)
            self.ev(node.value) if own is None else None
            return frozenset([('Message.' + node.attr, 'S')])
        if self.plain(node):
            r = self.prog.resolve_expr(self.mod, node)
            if r and r[0] == 'const':
                return sh._global_expr(self.mod, node)
        own = self.owner(node.value)
        if own is not None and own[0] == 'cls':
            return self.class_site(own[1], node.attr)
        if own is not None and own[0] == 'mod':
            return EMPTY
        if own is not None and own[0] == 'anycls':
            return frozenset((site, 'S') for (c, a), site in sh.clsattrs.items() if a == node.attr)
        if own is not None and own[0] == 'self':
            res = sh.attrs.get((sh.root(self.f.cls), node.attr), EMPTY) | sh.attrs.get(('?', node.attr), EMPTY)
            if not sh.ctor_sets(self.f.cls, node.attr):
                res = res | self.class_site(self.f.cls, node.attr)
                for c in self.prog.subclasses(self.f.cls.dotted):
                    if node.attr in c.attrs and not sh.ctor_sets(c, node.attr):
                        res = res | self.class_site(c, node.attr)
            if self.f.cls.dotted == sh.handler and node.attr in sh.settings and self.f.name != '__init__':
                res = res | frozenset([(sh.handler + '.' + node.attr, 'S')])
            return res
        self.ev(node.value)
        res = self.any_attr(node.attr)
        for (c, a), site in sh.clsattrs.items():
            if a == node.attr and not any(sh.ctor_sets(x, a) for x in [self.prog.cls(c)]):
                res = res | frozenset([(site, 'S')])
        return res

    def any_attr(self, name):
        return self.sh.byattr.get(name, EMPTY)

    def set_named(self, obj, key, v):
        """an attribute whose name is computed"""
        sh = self.sh
        named = {}
        if isinstance(key, ast.Constant):
            named = {key.value: v}
        elif isinstance(key, ast.Name):
            names = self.keys.get(key.id)
            if names == '**':
                named = sh.kwparams.get(id(self.f.node), {})
            elif names:
                named = {n: v for n in names}
        own = self.owner(obj)
        for n, lab in named.items():
            sh.bump(sh.attrs, (sh.root(self.f.cls), n) if own is not None and own[0] == 'self' else ('?', n), lab)
            sh.bump(sh.byattr, n, lab)

    def class_site(self, cls, attr):
        r = self.prog.class_attr(cls, attr)
        if r is None:
            return EMPTY
        site = self.sh.clsattrs.get((r[0].dotted, attr))
        return frozenset([(site, 'S')]) if site else self.sh._global_expr(r[0].module, r[1]) if isinstance(r[1], (ast.Name, ast.Attribute)) else EMPTY

    def call(self, node):
        sh = self.sh
        fn = node.func
        name = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else ''
        args = [self.ev(a) for a in node.args]
        kws = [(k.arg, self.ev(k.value)) for k in node.keywords]
        targets = self.targets(node, fn, name)
        if name == 'deepcopy':
            return EMPTY
        if name == 'setattr' and len(node.args) == 3 and isinstance(fn, ast.Name):
            own = self.owner(node.args[0])
            if own is not None and own[0] in ('cls', 'anycls'):
                self.report('{}.*'.format(own[1] if own[0] == 'anycls' else own[1].dotted), node, 'S')
            if isinstance(node.args[1], ast.Constant):
                sh.bump(sh.attrs, ('?', node.args[1].value), args[2])
                sh.bump(sh.byattr, node.args[1].value, args[2])
            else:
                self.set_named(node.args[0], node.args[1], args[2])
            return EMPTY
        if name == 'set' and len(node.args) == 2 and isinstance(fn, ast.Attribute):
            self.set_named(fn.value, node.args[0], args[1])
            return EMPTY
        if name == 'getattr' and isinstance(fn, ast.Name) and len(node.args) >= 2 and isinstance(node.args[1], ast.Constant):
            return self.attr(ast.copy_location(ast.Attribute(node.args[0], str(node.args[1].value), ast.Load()), node)) | \
                (args[2] if len(args) > 2 else EMPTY)
        if isinstance(fn, ast.Attribute) and not (targets and not name in COMMON):
            base = self.ev(fn.value) if self.owner(fn.value) is None or self.owner(fn.value)[0] == 'self' else EMPTY
            if name in MUTATORS:
                self.mutate(base, node, fn.value)
                if name in ('append', 'add', 'insert', 'setdefault', 'extend', 'update', 'appendleft'):
                    for v in args:
                        self.hold(fn.value, sh.shallow(v) if name in ('extend', 'update') else sh.wrap(v))
                    for k, v in kws:
                        self.hold(fn.value, sh.shallow(v) if k is None else sh.wrap(v, k))
            if name in LOADERS:
                res = sh.load(base, node.args[0].value if node.args and isinstance(node.args[0], ast.Constant) else None) | frozenset().union(EMPTY, *args[1:])
                if name == 'get' and node.args and isinstance(node.args[0], ast.Constant) and not base:
                    res = res | self.any_attr(node.args[0].value)
                return res
            if name in VIEWS:
                return sh.shallow(base) if name != 'keys' else EMPTY
            if name in COPIES:
                if self.owner(fn.value) is not None and self.owner(fn.value)[0] == 'mod' or \
                        (isinstance(fn.value, ast.Name) and fn.value.id == 'copy'):
                    return sh.shallow(args[0] if args else EMPTY)
                return sh.shallow(base)
            if name == 'fromkeys':
                return EMPTY
        if not targets and isinstance(fn, ast.Name):
            if name in FRESH_CTORS or name == 'copy':
                return sh.shallow(frozenset().union(EMPTY, *args)).union(*[sh.wrap(v, k) if k else sh.shallow(v) for k, v in kws])
            if name in ('next', 'max', 'min'):
                return sh.load(frozenset().union(EMPTY, *args))
            if name in ('enumerate', 'zip', 'filter', 'map'):
                return sh.shallow(frozenset().union(EMPTY, *args))
        res = EMPTY
        for f, bound in targets:
            res = res | self.bind(f, bound, node, args, kws)
        return res

    def bind(self, f, bound, node, args, kws):
        sh = self.sh
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        if bound:
            pos = pos[1:]
        names = set(pos) | {x.arg for x in a.kwonlyargs}
        i = 0
        for n, v in zip(node.args, args):
            if isinstance(n, ast.Starred):
                for p in pos[i:]:
                    sh.bump(sh.params, (id(f.node), p), sh.load(v))
                continue
            if i < len(pos):
                sh.bump(sh.params, (id(f.node), pos[i]), v)
            elif a.vararg:
                sh.bump(sh.params, (id(f.node), '*'), sh.wrap(v, i - len(pos)))
            i += 1
        for k, v in kws:
            if k is None:
                for p in names:
                    sh.bump(sh.params, (id(f.node), p), sh.load(v, p))
                if a.kwarg:
                    sh.bump(sh.params, (id(f.node), '**'), sh.shallow(v))
            elif k in names:
                sh.bump(sh.params, (id(f.node), k), v)
            elif a.kwarg:
                sh.bump(sh.params, (id(f.node), '**'), sh.wrap(v, k))
                sh.bump(sh.kwparams.setdefault(id(f.node), {}), k, v)
        return sh.results.get(id(f.node), EMPTY)

    def targets(self, node, fn, name):
        """[(Func, bound?)] of the repository that a call may reach"""
        prog = self.prog
        res = []
        if isinstance(fn, ast.Name):
            if fn.id in self.env and fn.id not in self.mod.bindings:
                return res
            r = prog.resolve(self.mod, fn.id)
        elif self.plain(fn):
            r = prog.resolve_expr(self.mod, fn)
        else:
            r = None
            if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and self.clsalias.get(fn.value.id, ('', 0))[0] in ('cls', 'mod'):
                kind, c = self.clsalias[fn.value.id]
                m = prog.find_method(c, name) if kind == 'cls' else prog.resolve(prog.module(c), name) if prog.module(c) else ('ext', name)
                r = (('func', m) if m else ('ext', name)) if kind == 'cls' else m or ('ext', name)
        if r is not None and r[0] == 'func':
            if self.repo(r[1]):
                f = r[1]
                bound = f.cls is not None and 'classmethod' in f.decs
                res.append((f, bound))
            return res
        if r is not None and r[0] == 'cls':
            m = prog.find_method(r[1], '__init__')
            if m and self.repo(m):
                res.append((m, True))
            return res
        if r is not None and r[0] in ('ext', 'mod'):
            return res
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super' and self.f.cls:
                m = prog.find_method(self.f.cls, name, skip=self.f.cls)
                return [(m, True)] if m and self.repo(m) else []
            if isinstance(fn.value, ast.Name) and fn.value.id == self.selfname and self.f.cls is not None:
                m = prog.find_method(self.f.cls, name)
                if m and self.repo(m):
                    res.append((m, 'staticmethod' not in m.decs))
                for c in prog.subclasses(self.f.cls.dotted):
                    if name in c.methods:
                        m2 = prog.find_method(c, name)
                        if m2 and self.repo(m2) and all(m2 is not x for x, _ in res):
                            res.append((m2, 'staticmethod' not in m2.decs))
                if res:
                    return res
                if name == 'client_cls':
                    return self.classes('oidcrp.oauth2.Client')
                return res
            if name in COMMON:
                return res
            if name == 'client_cls':
                return self.classes('oidcrp.oauth2.Client')
            for f in self.sh.methods.get(name, []):
                res.append((f, 'staticmethod' not in f.decs))
        return res

    def classes(self, base):
        res = []
        for c in self.prog.subclasses(base):
            m = self.prog.find_method(c, '__init__')
            if m and self.repo(m) and all(m is not x for x, _ in res):
                res.append((m, True))
        return res

    def repo(self, f):
        return f.module.is_repo
