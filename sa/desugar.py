"""Loops written by hand are seen as the for loops they are.

Applied to the modules of the repository when they are loaded:
    it = iter(X); while True: try: x = next(it) except StopIteration: break; BODY      for x in X: BODY
    i = 0; while i < len(X): BODY with X[i]; i += 1                                     for x in X: BODY with x
    for i in range(len(X)): BODY with X[i]                                              for x in X: BODY with x
    for i, x in enumerate(X): BODY without i                                            for x in X: BODY
    while q: x = q.pop(0); BODY, with q used nowhere else                               for x in q: BODY
    for x in list(f(..)): BODY                                                          for x in f(..): BODY
    with suppress(E): BODY                                                              try: BODY except E: pass
    for k, v in X.items(): D[k] = v                                                     D.update(X)
    x.extend([a, b]); x.y += [a, b]                                                     x.append(a); x.append(b)
"""
import ast


def name(n, ident=None):
    return isinstance(n, ast.Name) and (ident is None or n.id == ident)


def called(n, func, args=1):
    return isinstance(n, ast.Call) and name(n.func, func) and len(n.args) == args and not n.keywords


def same(a, b):
    return ast.dump(a) == ast.dump(b)


def uses(nodes, ident):
    return [n for st in nodes for n in ast.walk(st) if isinstance(n, ast.Name) and n.id == ident]


def stable(x, body):
    """a name or attribute that the statements do not bind anew"""
    if isinstance(x, ast.Attribute):
        return stable(x.value, body) and not any(isinstance(n, ast.Attribute) and n.attr == x.attr and not isinstance(n.ctx, ast.Load) for st in body for n in ast.walk(st))
    if isinstance(x, ast.Name):
        return not any(not isinstance(n.ctx, ast.Load) for n in uses(body, x.id))
    return False


class Subst(ast.NodeTransformer):
    def __init__(self, x, i, new):
        self.x, self.i, self.new = x, i, new

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if name(n.slice, self.i) and same(n.value, self.x) and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Name(self.new, ast.Load()), n)
        return n


def is_step(st, i):
    if isinstance(st, ast.AugAssign):
        return name(st.target, i) and isinstance(st.op, ast.Add) and isinstance(st.value, ast.Constant) and st.value.value == 1
    return isinstance(st, ast.Assign) and len(st.targets) == 1 and name(st.targets[0], i) and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, ast.Add) and \
        {type(st.value.left), type(st.value.right)} == {ast.Name, ast.Constant} and any(name(y, i) for y in (st.value.left, st.value.right)) and \
        any(isinstance(y, ast.Constant) and y.value == 1 for y in (st.value.left, st.value.right))


def continues(body):
    """a continue of this loop"""
    for st in body:
        if isinstance(st, ast.Continue):
            return True
        if isinstance(st, (ast.For, ast.While, ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        for f in ('body', 'orelse', 'finalbody', 'handlers'):
            v = getattr(st, f, None)
            if isinstance(v, list) and continues([y for x in v for y in (x.body if isinstance(x, ast.ExceptHandler) else [x])]):
                return True
    return False


class Loops(ast.NodeTransformer):
    def __init__(self):
        self.n = 0

    def visit_With(self, n):
        self.generic_visit(n)
        call = n.items[0].context_expr
        if not (isinstance(call, ast.Call) and call.args and not call.keywords and n.items[0].optional_vars is None and
                (name(call.func, 'suppress') or isinstance(call.func, ast.Attribute) and call.func.attr == 'suppress' and
                 name(call.func.value, 'contextlib'))):
            return n
        body = n.body if len(n.items) == 1 else [ast.copy_location(ast.With(n.items[1:], n.body), n)]
        kind = call.args[0] if len(call.args) == 1 else ast.Tuple(call.args, ast.Load())
        h = ast.ExceptHandler(kind, None, [ast.Pass()])
        return ast.fix_missing_locations(ast.copy_location(ast.Try(body, [ast.copy_location(h, n)], [], []), n))

    @staticmethod
    def appends(n, target, more):
        """appending one by one; the target must be the same thing each time it is evaluated"""
        t = target
        while isinstance(t, ast.Attribute):
            t = t.value
        if not (isinstance(t, ast.Name) and isinstance(more, (ast.List, ast.Tuple)) and more.elts) or \
                any(isinstance(x, ast.Starred) for x in more.elts) or \
                len(more.elts) > 1 and any(isinstance(y, ast.Call) for x in more.elts for y in ast.walk(x)):
            return n
        import copy
        res = []
        for x in more.elts:
            t = copy.deepcopy(target)
            t.ctx = ast.Load()
            st = ast.Expr(ast.Call(ast.Attribute(t, 'append', ast.Load()), [x], []))
            res.append(ast.fix_missing_locations(ast.copy_location(st, n)))
        return res

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'extend' and len(c.args) == 1 and not c.keywords:
            return self.appends(n, c.func.value, c.args[0])
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add) and isinstance(n.target, ast.Attribute) and isinstance(n.value, ast.List):
            return self.appends(n, n.target, n.value)
        return n

    def fresh(self):
        self.n += 1
        return '_elem{}_'.format(self.n)

    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        for node in reversed(list(ast.walk(fn))):
            if node is not fn and isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                continue
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(node, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    setattr(node, f, self.block(fn, v))
        for node in list(ast.walk(fn)):
            for f in ('body', 'orelse', 'finalbody'):
                v = getattr(node, f, None)
                if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                    res = []
                    for st in v:
                        if isinstance(st, ast.For):
                            self.copied(fn, st, res)
                            if (called(st.iter, 'list') or called(st.iter, 'tuple')) and isinstance(st.iter.args[0], ast.Call):
                                st.iter = st.iter.args[0]       # goes over the same elements
                        res.append(st)
                    setattr(node, f, res)
        return fn

    def block(self, fn, body):
        res = []
        for st in body:
            new = None
            if isinstance(st, ast.For) and not st.orelse:
                new = self.update(fn, st) or self.indexed(fn, st) or self.counted(fn, st)
            elif isinstance(st, ast.While) and not st.orelse:
                new = self.iterator(fn, st, res) or self.index(fn, st, res) or self.queue(fn, st)
            if new is not None:
                ast.copy_location(new, st)
                new.lineno = st.lineno
                ast.fix_missing_locations(new)
            res.append(new or st)
        return res

    @staticmethod
    def copied(fn, loop, before):
        """xs = list(X); for x in xs  ->  for x in X"""
        x = loop.iter
        if name(x) and before and isinstance(before[-1], ast.Assign) and len(before[-1].targets) == 1 and name(before[-1].targets[0], x.id) and \
                (called(before[-1].value, 'list') or called(before[-1].value, 'tuple')) and len(uses([fn], x.id)) == 2:
            loop.iter = before.pop().value

    @staticmethod
    def update(fn, st):
        t, it = st.target, st.iter
        if not (len(st.body) == 1 and isinstance(st.body[0], ast.Assign) and len(st.body[0].targets) == 1 and isinstance(st.body[0].targets[0], ast.Subscript)):
            return None
        to, val = st.body[0].targets[0], st.body[0].value
        if not name(to.value) or name(to.value, 'self') or not name(to.slice):
            return None
        k = to.slice.id
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and name(t.elts[0], k) and name(t.elts[1]) and t.elts[1].id != k and name(val, t.elts[1].id):
            if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and not it.args and not it.keywords):
                return None
            source, names = it.func.value, (k, val.id)
        elif name(t, k) and isinstance(val, ast.Subscript) and name(val.slice, k) and name(it) and same(it, val.value):
            source, names = it, (k,)
        else:
            return None
        inside = [uses([st], n) for n in names]
        if name(source, to.value.id) or any(len(uses([fn], n)) != len(i) for n, i in zip(names, inside)):
            return None
        return ast.Expr(ast.Call(ast.Attribute(ast.Name(to.value.id, ast.Load()), 'update', ast.Load()), [source], []))

    @staticmethod
    def counted(fn, st):
        if called(st.iter, 'enumerate') and isinstance(st.target, ast.Tuple) and len(st.target.elts) == 2 and name(st.target.elts[0]) and \
                len(uses([fn], st.target.elts[0].id)) == 1:
            return ast.For(st.target.elts[1], st.iter.args[0], st.body, [])

    def indexed(self, fn, st):
        if not (name(st.target) and called(st.iter, 'range') and called(st.iter.args[0], 'len')):
            return None
        x, i = st.iter.args[0].args[0], st.target.id
        if not stable(x, st.body):
            return None
        return self.elements(fn, st.body, x, i, 1)

    def elements(self, fn, body, x, i, others):
        import copy
        total = len(uses([fn], i))
        new = self.fresh()
        trial = [Subst(x, i, new).visit(copy.deepcopy(b)) for b in body]
        if uses(trial, i) or total - len(uses(body, i)) != others:
            return None
        body = [Subst(x, i, new).visit(b) for b in body]
        first = body[0]
        target = ast.Name(new, ast.Store())
        if isinstance(first, ast.Assign) and len(first.targets) == 1 and name(first.value, new) and len(uses(body, new)) == 1:
            target, body = first.targets[0], body[1:] or [ast.Pass()]
        return ast.For(target, x, body, [])

    @staticmethod
    def iterator(fn, st, before):
        if not (isinstance(st.test, ast.Constant) and st.test.value and st.body and isinstance(st.body[0], ast.Try) and before):
            return None
        t, init = st.body[0], before[-1]
        if not (isinstance(init, ast.Assign) and len(init.targets) == 1 and name(init.targets[0]) and called(init.value, 'iter')):
            return None
        it = init.targets[0].id
        if not (len(t.body) == 1 and isinstance(t.body[0], ast.Assign) and len(t.body[0].targets) == 1 and called(t.body[0].value, 'next') and
                name(t.body[0].value.args[0], it) and len(t.handlers) == 1 and name(t.handlers[0].type, 'StopIteration') and
                len(t.handlers[0].body) == 1 and isinstance(t.handlers[0].body[0], ast.Break) and not t.finalbody and len(uses([fn], it)) == 2):
            return None
        before.pop()
        return ast.For(t.body[0].targets[0], init.value.args[0], (t.orelse + st.body[1:]) or [ast.Pass()], [])

    def index(self, fn, st, before):
        t = st.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and before):
            return None
        left, right, op = t.left, t.comparators[0], t.ops[0]
        if isinstance(op, ast.Gt):
            left, right, op = right, left, ast.Lt()
        if not (isinstance(op, (ast.Lt, ast.NotEq)) and name(left) and called(right, 'len')):
            return None
        i, x, init = left.id, right.args[0], before[-1]
        if not (isinstance(init, ast.Assign) and len(init.targets) == 1 and name(init.targets[0], i) and isinstance(init.value, ast.Constant) and init.value.value == 0):
            return None
        steps = [b for b in st.body if is_step(b, i)]
        if len(steps) != 1:
            return None
        k = st.body.index(steps[0])
        # the element is not used after the step, and the step is not left out
        if uses(st.body[k + 1:], i) or continues(st.body[:k]):
            return None
        body = st.body[:k] + st.body[k + 1:]
        if not body or not stable(x, body):
            return None
        new = self.elements(fn, body, x, i, 2 + len(uses(steps, i)))
        if new is not None:
            before.pop()
        return new

    @staticmethod
    def queue(fn, st):
        if not (name(st.test) and st.body and isinstance(st.body[0], ast.Assign)):
            return None
        q, first = st.test.id, st.body[0]
        v = first.value
        if not (len(first.targets) == 1 and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'pop' and name(v.func.value, q) and
                len(v.args) == 1 and isinstance(v.args[0], ast.Constant) and v.args[0].value == 0):
            return None
        if len(uses([fn], q)) != 3 or q in {a.arg for a in fn.args.args}:
            return None
        return ast.For(first.targets[0], ast.Name(q, ast.Load()), st.body[1:] or [ast.Pass()], [])


def desugar(tree):
    return ast.fix_missing_locations(Loops().visit(tree))
