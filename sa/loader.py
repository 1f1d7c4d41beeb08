"""Parses the source of the repository (and, lazily, of the libraries it is written against) and
resolves names, imports, classes and methods. Nothing is imported or executed."""
import ast
import builtins
import hashlib
import os

from .desugar import desugar

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = 'oidcrp'
DEP_ROOTS = ['/opt/venv/lib/python3.12/site-packages']
DEPS = ('oidcmsg', 'cryptojwt')


class AnalysisBroken(Exception):
    """An anchor the rules rest on is gone, or the source can not be parsed."""


class Module:
    def __init__(self, name, path, is_repo, is_pkg):
        self.name = name
        self.path = path
        self.is_repo = is_repo
        self.is_pkg = is_pkg
        with open(path, encoding='utf-8') as fp:
            self.source = fp.read()
        try:
            self.tree = ast.parse(self.source)
        except SyntaxError as err:
            raise AnalysisBroken('can not parse {}: {}'.format(path, err))
        if is_repo:
            self.tree = desugar(self.tree)
        self.bindings = {}
        self._scan(self.tree.body)

    def _scan(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.bindings[st.name] = ('def', st)
            elif isinstance(st, ast.ClassDef):
                self.bindings[st.name] = ('class', st)
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname:
                        self.bindings[al.asname] = ('import', al.name)
                    else:
                        self.bindings[al.name.split('.')[0]] = ('import', al.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._from_base(st)
                for al in st.names:
                    self.bindings.setdefault(al.asname or al.name, None)
                    self.bindings[al.asname or al.name] = ('from', base, al.name)
            elif isinstance(st, ast.Assign):
                for tgt in st.targets:
                    if isinstance(tgt, ast.Name):
                        self.bindings[tgt.id] = ('assign', st.value)
                    elif isinstance(tgt, ast.Tuple):
                        for el in tgt.elts:
                            if isinstance(el, ast.Name):
                                self.bindings[el.id] = ('assign', None)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                if st.value is not None:
                    self.bindings[st.target.id] = ('assign', st.value)
            elif isinstance(st, ast.Try):
                # the names bound when nothing fails win
                for h in st.handlers:
                    self._scan(h.body)
                self._scan(st.body)
                self._scan(st.orelse)
                self._scan(st.finalbody)
            elif isinstance(st, (ast.If, ast.With)):
                self._scan(st.body)
                if isinstance(st, ast.If):
                    self._scan(st.orelse)

    def _from_base(self, st):
        if not st.level:
            return st.module
        parts = self.name.split('.')
        if not self.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[:-(st.level - 1)]
        return '.'.join(parts + ([st.module] if st.module else []))


class Cls:
    def __init__(self, module, node, qual=None):
        self.module = module
        self.node = node
        self.name = qual or node.name
        self.methods = {}
        self.attrs = {}
        for st in node.body:
            self._scan(st)

    def _scan(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.methods[st.name] = st
            self.attrs.pop(st.name, None)
        elif isinstance(st, ast.Assign):
            for tgt in st.targets:
                if isinstance(tgt, ast.Name):
                    self.attrs[tgt.id] = st.value
                    self.methods.pop(tgt.id, None)
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            self.attrs[st.target.id] = st.value
        elif isinstance(st, (ast.If, ast.Try)):
            for s in st.body:
                self._scan(s)

    @property
    def dotted(self):
        return self.module.name + '.' + self.name

    def __repr__(self):
        return '<Cls {}>'.format(self.dotted)


class Func:
    def __init__(self, module, node, cls=None, name=None):
        self.module = module
        self.node = node
        self.cls = cls
        self.name = name or node.name
        decs = set()
        for d in getattr(node, 'decorator_list', []):
            if isinstance(d, ast.Name):
                decs.add(d.id)
            elif isinstance(d, ast.Attribute):
                decs.add(d.attr)
            else:
                decs.add('?')
        self.decs = decs

    @property
    def dotted(self):
        if self.cls is not None:
            return self.cls.dotted + '.' + self.name
        return self.module.name + '.' + self.name

    @property
    def where(self):
        rel = self.module.path
        if rel.startswith(REPO + '/'):
            rel = rel[len(REPO) + 1:]
        return rel

    def __repr__(self):
        return '<Func {}>'.format(self.dotted)


class Program:
    def __init__(self):
        self.modules = {}
        self._missing = set()
        self.generators = {}    # what is known of generator functions
        self.eager = {}
        self.captured = {}
        self.repo_modules = []
        self.classes = {}
        self.funcs = {}
        self.consulted = set()
        for root, dirs, files in os.walk(os.path.join(SRC, PKG)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith('.py'):
                    path = os.path.join(root, f)
                    rel = os.path.relpath(path, SRC)[:-3].split(os.sep)
                    is_pkg = rel[-1] == '__init__'
                    if is_pkg:
                        rel = rel[:-1]
                    name = '.'.join(rel)
                    mod = Module(name, path, True, is_pkg)
                    self.modules[name] = mod
                    self.repo_modules.append(mod)
        if not self.repo_modules:
            raise AnalysisBroken('no source found below {}'.format(SRC))

    # ---------------------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        if name in self._missing or name.split('.')[0] not in DEPS:
            return None
        for root in DEP_ROOTS:
            base = os.path.join(root, *name.split('.'))
            for path, is_pkg in ((os.path.join(base, '__init__.py'), True), (base + '.py', False)):
                if os.path.exists(path):
                    mod = Module(name, path, False, is_pkg)
                    self.modules[name] = mod
                    return mod
        self._missing.add(name)
        return None

    # ---------------------------------------------------------------- names
    def resolve(self, module, name, _seen=None):
        """-> ('func', Func) | ('cls', Cls) | ('mod', dotted) | ('const', module, name, expr) |
              ('ext', dotted) | None"""
        b = module.bindings.get(name)
        if b is None:
            sub = self.module(module.name + '.' + name) if module.is_pkg else None
            if sub is not None:
                return ('mod', sub.name)
            return None
        kind = b[0]
        if kind == 'def':
            return ('func', self._func(module, b[1], None))
        if kind == 'class':
            return ('cls', self._cls(module, b[1]))
        if kind == 'import':
            return ('mod', b[1])
        if kind == 'from':
            _seen = _seen or set()
            if (module.name, name) in _seen:
                return ('ext', '{}.{}'.format(b[1], b[2]))
            _seen.add((module.name, name))
            return self.resolve_dotted(b[1], b[2], _seen)
        if kind == 'assign':
            # a plain alias of something else
            v = b[1]
            if isinstance(v, ast.Name) and v.id != name and v.id in module.bindings:
                r = self.resolve(module, v.id, _seen)
                if r and r[0] in ('func', 'cls', 'mod', 'ext'):
                    return r
            return ('const', module, name, b[1])
        return None

    def resolve_dotted(self, modname, attr, _seen=None):
        mod = self.module(modname)
        if mod is None:
            sub = self.module(modname + '.' + attr)
            if sub is not None:
                return ('mod', sub.name)
            return ('ext', modname + '.' + attr)
        r = self.resolve(mod, attr, _seen)
        if r is None:
            sub = self.module(modname + '.' + attr)
            if sub is not None:
                return ('mod', sub.name)
            return ('ext', modname + '.' + attr)
        return r

    def _cls(self, module, node):
        key = (module.name, node.name, id(node))
        if key not in self.classes:
            self.classes[key] = Cls(module, node)
        return self.classes[key]

    def _func(self, module, node, cls, name=None):
        key = (id(node), cls.dotted if cls else None)
        if key not in self.funcs:
            self.funcs[key] = Func(module, node, cls, name)
        return self.funcs[key]

    # ---------------------------------------------------------------- classes
    def bases(self, cls):
        res = []
        for b in cls.node.bases:
            r = self.resolve_expr(cls.module, b)
            res.append(r)
        return res

    def resolve_expr(self, module, expr):
        if isinstance(expr, ast.Name):
            r = self.resolve(module, expr.id)
            if r is None and hasattr(builtins, expr.id):
                return ('ext', 'builtins.' + expr.id)
            return r
        if isinstance(expr, ast.Attribute):
            r = self.resolve_expr(module, expr.value)
            if r is None:
                return None
            if r[0] == 'mod':
                return self.resolve_dotted(r[1], expr.attr)
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + expr.attr)
            if r[0] == 'cls':
                m = self.find_method(r[1], expr.attr)
                if m:
                    return ('func', m)
        return None

    def mro(self, cls):
        res, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in res:
                continue
            res.append(c)
            todo.extend(b[1] for b in self.bases(c) if b and b[0] == 'cls')
        # linearised well enough: single inheritance throughout
        return res

    def ext_bases(self, cls):
        res = set()
        for c in self.mro(cls):
            for b in self.bases(c):
                if b and b[0] == 'ext':
                    res.add(b[1])
        return res

    def is_subclass(self, cls, dotted):
        return any(c.dotted == dotted for c in self.mro(cls)) or dotted in self.ext_bases(cls)

    def find_method(self, cls, name, skip=None):
        seen_skip = skip is None
        for c in self.mro(cls):
            if not seen_skip:
                if c is skip:
                    seen_skip = True
                continue
            if name in c.methods:
                return self._func(c.module, c.methods[name], c, name)
            if name in c.attrs:
                r = self.resolve_expr(c.module, c.attrs[name])
                if r and r[0] == 'func':
                    return r[1]
                return None
        return None

    def class_attr(self, cls, name):
        """-> (defining Cls, expr) of a class level data attribute."""
        for c in self.mro(cls):
            if name in c.methods:
                return None
            if name in c.attrs:
                return c, c.attrs[name]
        return None

    def cls(self, dotted):
        modname, _, name = dotted.rpartition('.')
        mod = self.module(modname)
        if mod is None:
            raise AnalysisBroken('module {} is gone'.format(modname))
        r = self.resolve(mod, name)
        if not r or r[0] != 'cls':
            raise AnalysisBroken('class {} is gone'.format(dotted))
        return r[1]

    def func(self, dotted):
        """module.func or module.Class.method (inherited methods are found)"""
        parts = dotted.split('.')
        for i in range(len(parts) - 1, 0, -1):
            mod = self.module('.'.join(parts[:i]))
            if mod is None:
                continue
            rest = parts[i:]
            r = self.resolve(mod, rest[0])
            if r is None:
                break
            if len(rest) == 1 and r[0] == 'func':
                return r[1]
            if len(rest) == 2 and r[0] == 'cls':
                m = self.find_method(r[1], rest[1])
                if m:
                    return m
            break
        raise AnalysisBroken('anchor {} is gone'.format(dotted))

    # all functions of the repository, methods and nested ones included
    def all_functions(self):
        for mod in self.repo_modules:
            for node in mod.tree.body:
                yield from self._walk_funcs(mod, node, None)

    def _walk_funcs(self, mod, node, cls):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            yield self._func(mod, node, cls)
        elif isinstance(node, ast.ClassDef):
            c = self._cls(mod, node)
            for sub in node.body:
                yield from self._walk_funcs(mod, sub, c)
        elif isinstance(node, (ast.If, ast.Try)):
            for sub in ast.iter_child_nodes(node):
                yield from self._walk_funcs(mod, sub, cls)

    def all_classes(self):
        for mod in self.repo_modules:
            for node in mod.tree.body:
                if isinstance(node, ast.ClassDef):
                    yield self._cls(mod, node)

    def subclasses(self, dotted):
        return [c for c in self.all_classes() if self.is_subclass(c, dotted)]

    def digest(self):
        h = hashlib.sha256()
        for m in self.repo_modules:
            h.update(m.name.encode() + b'\0' + m.source.encode() + b'\0')
        return h.hexdigest()
