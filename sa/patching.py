"""What a module changes of things made elsewhere, and what functions keep between calls."""
import ast

CACHES = {'lru_cache', 'cache', 'cached_property', 'cachedmethod', 'cached', 'memoize'}
KNOWN = {'staticmethod', 'classmethod', 'property', 'abstractmethod', 'wraps', 'contextmanager', 'setter', 'getter', 'deleter', 'dataclass', 'overload', 'total_ordering'}
PURE = {'frozenset', 'tuple', 'len', 'int', 'str', 'float', 'bool', 'set', 'list', 'dict', 'sorted', 'min', 'max', 'object', 'range', 'TypeVar', 'namedtuple', 'compile', 'getLogger',
        'join', 'split', 'format', 'lower', 'upper', 'strip', 'encode', 'decode', 'keys', 'values', 'items', 'copy', 'deepcopy', 'timedelta', 'Field', 'field'}
CHANGERS = {'update', 'append', 'extend', 'pop', 'clear', 'setdefault', 'insert', 'remove', 'add', 'discard', 'popitem', '__setitem__', '__delitem__'}


def dotted(prog, module, expr):
    """the full name of what an expression names, or None"""
    r = prog.resolve_expr(module, expr)
    if r is None:
        if isinstance(expr, ast.Attribute):
            base = dotted(prog, module, expr.value)
            return base and base + '.' + expr.attr
        if isinstance(expr, ast.Name):
            b = module.bindings.get(expr.id)
            return b[1] if b and b[0] == 'import' else '{}.{}'.format(b[1], b[2]) if b and b[0] == 'from' else None
        return None
    if r[0] in ('func', 'cls'):
        return r[1].dotted
    if r[0] in ('mod', 'ext'):
        return r[1]
    if r[0] == 'const':
        return r[1].name + '.' + r[2]
    return None


def locals_of(fn):
    a = fn.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    if isinstance(fn, ast.Lambda):
        return names
    free = set()
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            free |= set(n.names)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            names.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
    return names - free


def own_nodes(fn):
    """the nodes of a function without those of the functions in it"""
    todo = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def root(expr):
    while isinstance(expr, (ast.Attribute, ast.Subscript)):
        expr = expr.value
    return expr


def replaced(prog, module):
    """(line, name) of attributes of modules and classes that are set from the outside"""
    def visit(node, hidden, cls):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            hidden = hidden | locals_of(node)
        targets = []
        if isinstance(node, ast.Assign):
            targets = [x for t in node.targets for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t])]
        elif isinstance(node, (ast.AugAssign, ast.AnnAssign)):
            targets = [node.target] if getattr(node, 'value', None) is not None else []
        elif isinstance(node, ast.Delete):
            targets = node.targets
        for t in targets:
            if isinstance(t, ast.Attribute):
                yield from thing(t, t.value, t.attr, hidden)
            elif isinstance(t, ast.Subscript) and isinstance(root(t), ast.Name):
                yield from table(t, hidden)
        if isinstance(node, ast.Call):
            if isinstance(node.func, ast.Name) and node.func.id in ('setattr', 'delattr') and node.args:
                what = node.args[1].value if len(node.args) > 1 and isinstance(node.args[1], ast.Constant) else '?'
                yield from thing(node, node.args[0], what, hidden)
            elif isinstance(node.func, ast.Attribute) and node.func.attr in CHANGERS and isinstance(node.func.value, (ast.Attribute, ast.Subscript)):
                yield from table(node, hidden, node.func.value)
        for sub in ast.iter_child_nodes(node):
            yield from visit(sub, hidden, cls)

    def thing(node, base, attr, hidden):
        if not isinstance(root(base), ast.Name) or root(base).id in hidden:
            return
        r = prog.resolve_expr(module, base)
        if r and r[0] in ('cls', 'mod', 'func', 'ext'):
            yield node.lineno, (dotted(prog, module, base) or '?') + '.' + str(attr)

    def table(node, hidden, base=None):
        base = base or node.value
        while isinstance(base, ast.Subscript):
            base = base.value
        if not isinstance(base, ast.Attribute) or root(base).__class__ is not ast.Name or root(base).id in hidden:
            return
        r = prog.resolve_expr(module, base.value)
        if r and r[0] in ('cls', 'ext'):
            yield node.lineno, (dotted(prog, module, base.value) or '?') + '.' + base.attr
    yield from visit(module.tree, set(), None)


def kept(prog, func):
    """what makes a function give what an earlier call gave"""
    for d in func.node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        name = dotted(prog, func.module, e) or (e.attr if isinstance(e, ast.Attribute) else getattr(e, 'id', '?'))
        last = name.rpartition('.')[2]
        if last in CACHES:
            yield d.lineno, last
        elif last not in KNOWN:
            r = prog.resolve_expr(func.module, e)
            if r and r[0] == 'func' and r[1].module.is_repo and keeps(r[1].node):
                yield d.lineno, last


def keeps(fn):
    """a function in a function changes what is not its own"""
    for n in ast.walk(fn):
        if n is fn or not isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        mine = locals_of(n)
        for m in own_nodes(n):
            t = None
            if isinstance(m, (ast.Subscript, ast.Attribute)) and isinstance(m.ctx, (ast.Store, ast.Del)):
                t = root(m)
            elif isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in CHANGERS:
                t = root(m.func.value)
            elif isinstance(m, ast.Nonlocal):
                return True
            if isinstance(t, ast.Name) and t.id not in mine:
                return True
    return False


def once(prog, func):
    """defaults of parameters that are made of something that is different every time"""
    a = func.node.args
    for d in a.defaults + [x for x in a.kw_defaults if x is not None]:
        for n in ast.walk(d):
            if isinstance(n, ast.Call):
                last = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '?')
                if last not in PURE:
                    yield n.lineno, (dotted(prog, func.module, n.func) or last)


def names_in(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)} | {x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute)}


def earlier(ctx, rid, functions, sources=()):
    """results kept of the functions that are meant, and defaults made once of the sources"""
    for f in ctx.prog.all_functions():
        if not f.module.is_repo:
            continue
        if functions(f):
            for line, what in kept(ctx.prog, f):
                ctx.ob(rid, False, f, what, 'the results of earlier calls are kept by ' + what, line)
            ctx.ob(rid, True, f, 'function', '')
        for line, what in once(ctx.prog, f) if sources else ():
            if any(x in what.lower() for x in sources):
                ctx.ob(rid, False, f, what, 'what {} gave when the module was loaded is used in every call'.format(what), line)
