"""Questions rules ask about the outcomes of an analysed function."""
from .engine import Limit
from .terms import C
from .terms import is_const
from .terms import show
from .terms import undeep
from .terms import walk


def strip(t):
    return undeep(t) if isinstance(t, tuple) else t


def arg(ev, name, pos=None, default=None):
    """argument of a call by parameter name, or by position when the callee's signature is not known"""
    for n, v in ev.kw:
        if n == name:
            return v
    if pos is not None and len(ev.args) > pos:
        return ev.args[pos]
    return default


def callarg(t, name, pos=None, default=None):
    """the same for a call term"""
    for n, v in t[3]:
        if n == name:
            return v
    if pos is not None and len(t[2]) > pos:
        return t[2][pos]
    return default


def callname(t):
    """simple name of what is called by a call term"""
    if not isinstance(t, tuple) or not t or t[0] != 'call':
        return ''
    c = t[1]
    if c[0] == 'meth' or c[0] == 'attr':
        return c[2]
    if c[0] in ('func', 'ext', 'cls'):
        return c[1].split('.')[-1]
    return ''


def is_call(t, *names):
    return isinstance(t, tuple) and bool(t) and t[0] == 'call' and (not names or callname(t) in names)


def involves(t, *names):
    """the term is the result of, or computed from, a call of one of the names"""
    return isinstance(t, tuple) and any(is_call(x, *names) for x in walk(t))


def recv(t):
    """receiver of a method call term"""
    if t[0] == 'call' and t[1][0] in ('meth', 'attr'):
        return t[1][1]
    return None


def calls(o, *names):
    """[(index, event, facts at the event)] in order"""
    return [(i, e, f) for i, (e, f) in enumerate(o.trace) if e.kind == 'call' and e.name in names]


def events(o, *kinds):
    return [(i, e, f) for i, (e, f) in enumerate(o.trace) if e.kind in kinds]


def known_eq(facts, a, b, eng):
    """the two values are known to be equal"""
    a, b = strip(a), strip(b)
    if a == b:
        return True
    atom = eng.norm_atom(('eq', a, b))
    if facts.get(atom) is True:
        return True
    ca = a if is_const(a) else facts.get(('=', a))
    cb = b if is_const(b) else facts.get(('=', b))
    return ca is not None and ca == cb


def known_ne(facts, a, b, eng):
    return facts.get(eng.norm_atom(('eq', strip(a), strip(b)))) is False


def fact(facts, eng, *atom):
    return facts.get(eng.norm_atom(tuple(atom)))


def truthy(facts, eng, t):
    if is_const(t):
        return bool(t[2])
    return facts.get(eng.norm_atom(('T', t)))


def subterms(t, pred):
    return [x for x in walk(t) if pred(x)]


def values(eng, state, cont, key):
    """[(state, value or None)] of what a container holds under a key; conditions are resolved"""
    if not isinstance(key, tuple):
        key = C(key)
    saved, eng.sink = eng.sink, []
    eng.callstack = eng.callstack or ['?']
    try:
        return [(s, v if v is None else eng.freeze(s, v)) for s, v in eng.lookup(state, cont, key)]
    finally:
        eng.sink = saved


def keys_of(cont):
    """constant keys a frozen container may have been given, and whether anything else went in"""
    keys, other = set(), []

    def ops(lst):
        for op in lst:
            if op[0] == 'set':
                if is_const(op[1]):
                    keys.add(op[1][2])
                else:
                    other.append(op)
            elif op[0] == 'cnd':
                ops(op[3])
                ops(op[4])
            elif op[0] in ('upd', 'ext', 'hav', 'dflt'):
                other.append(op)
    cont = literal(cont)
    if cont[0] == 'obj':
        ops(cont[4])
        if cont[3] is not None:
            other.append(('base', cont[3]))
    return keys, other


def all_ops(cont):
    """every operation of a frozen container, the conditional ones included"""
    if cont[0] != 'obj':
        return
    todo = list(cont[4])
    while todo:
        op = todo.pop(0)
        if op[0] == 'cnd':
            todo = list(op[3]) + list(op[4]) + todo
        else:
            yield op


def sources(t):
    """what a frozen container was built from: its base and everything merged in"""
    res = []
    if t[0] == 'obj':
        if t[3] is not None:
            res.extend(sources(t[3]))
        for op in all_ops(t):
            if op[0] in ('upd', 'ext'):
                res.extend(sources(op[1]))
        return res
    return [undeep(t)]


def parts(t):
    """pieces of a string in order"""
    return list(t[1]) if t[0] == 'cat' else [t]


# ------------------------------------------------------------------ the vocabulary of the repository
def sess(t):
    """(store, key, item type) when a term is something read from a session record"""
    t = strip(t)
    if not isinstance(t, tuple) or not t:
        return None
    if t[0] == 'item' and is_call(t[1], 'get_state') and is_const(t[2]):
        return recv(t[1]), callarg(t[1], 'key', 0), t[2][2]
    if is_call(t, 'get_iss'):
        return recv(t), callarg(t, 'key', 0), 'iss'
    if is_call(t, 'get_item'):
        it = callarg(t, 'item_type', 1)
        return recv(t), callarg(t, 'key', 2), it[2] if it and is_const(it) else it
    return None


def answered(ctx, rid):
    """an authorization response counts for what the service made of it, and only then"""
    r = ctx.run('oidcrp.rp_handler.RPHandler.finalize_auth')
    for o in r.outs if r else ():
        mine = [strip(e.res) for _, e, _ in calls(o, 'parse_response') if is_service(e.recv, 'authorization', sym('client'))]
        if o.kind == 'return':
            ctx.ob(rid, base_of(strip(o.value)) in mine, r.func, 'return', 'returns {} which the service has not accepted'.format(show(strip(o.value))[:80]))
        for _, e, _ in calls(o, 'store_item', 'update_service_context'):
            v = strip(arg(e, 'item' if e.name == 'store_item' else 'resp', 0, C(None)))
            ctx.ob(rid, base_of(v) in mine, r.func, e.name, 'records {} which the service has not accepted'.format(show(v)[:80]), e.line)


def mapped(ctx, rid):
    """a logout request finds the session through what is recorded of subjects and session ids"""
    r = ctx.run('oidcrp.rp_handler.RPHandler.finalize')
    for o in r.outs if r else ():
        for _, e, _ in calls(o, 'store_sub2state', 'store_sid2state'):
            to = strip(arg(e, 'state', 1, C(None)))
            ok = to[0] == 'item' and to[2] == C('state') and is_call(to[1], 'finalize_auth')
            ctx.ob(rid, ok, r.func, e.name, 'leads to ' + show(to), e.line)
            what = strip(arg(e, 'sub' if e.name == 'store_sub2state' else 'sid', 0, C(None)))
            ok = what[0] == 'item' and what[2] == C('sub' if e.name == 'store_sub2state' else 'sid')
            ctx.ob(rid, ok, r.func, e.name, '{} leads to the session'.format(show(what)), e.line)
    for m in impls(ctx, 'oidcrp.service.Service', 'update_service_context'):
        f = ctx.prog.func(m)
        if f.cls is None or not f.cls.dotted.startswith('oidcrp.oidc.') or 'key' not in [a.arg for a in f.node.args.args]:
            continue
        r = ctx.run(m)
        for o in r.outs if r else ():
            for _, e, _ in calls(o, 'store_sub2state', 'store_sid2state'):
                to = strip(arg(e, 'state', 1, C(None)))
                ctx.ob(rid, to == sym('key'), r.func, e.name, 'leads to ' + show(to), e.line)


def kept_under(ctx, rid):
    """what a service receives is kept with the session it was received for, whatever the response says"""
    for name, resp in (('update_service_context', 'resp'), ('post_parse_response', 'response')):
        for m in impls(ctx, 'oidcrp.service.Service', name):
            f = ctx.prog.func(m)
            own = [a.arg for a in f.node.args.args]
            r = ctx.run(m)
            for o in r.outs if r else ():
                for _, e, _ in calls(o, 'store_item', 'create_state'):
                    if e.recv is None or not is_store(strip(e.recv)):
                        continue
                    to = strip(arg(e, 'key', 2 if e.name == 'store_item' else 1, C(None)))
                    given = sym('key') if 'key' in own else None
                    ok = to == given if given is not None else not mentions(to, sym(own[1] if len(own) > 1 else resp))
                    ctx.ob(rid, ok, r.func, e.name, 'is kept under ' + show(to)[:80], e.line)


def is_store(t):
    """the session store of some client"""
    return isinstance(t, tuple) and bool(t) and t[0] == 'attr' and t[2] == 'state'


def context_of(client):
    return ('attr', client, '_service_context')


def store_of(client):
    return ('attr', context_of(client), 'state')


def is_service(t, name, client=None):
    """the named service of a client"""
    t = strip(t)
    return (t[0] == 'item' and t[2] == C(name) and t[1][0] == 'attr' and t[1][2] == '_service'
            and (client is None or t[1][1] == client))


def is_error(facts, eng, resp):
    """True/False/None: the message is an error message"""
    return facts.get(eng.norm_atom(('in', C('error'), strip(resp))))


STORING = ('update_service_context', 'store_item', 'store_nonce2state', 'store_sid2state', 'store_sub2state',
           'store_x2state', 'store_logout_state2state', 'create_state', 'remove_state')


def effects(o):
    """everything that changes objects outliving the call"""
    return [(i, e, f) for i, (e, f) in enumerate(o.trace)
            if e.kind in ('setattr', 'setitem', 'delitem', 'delattr', 'update', 'append', 'remove')
            or e.name in STORING]


def values_of(cont, key):
    """the value a frozen container has under a constant key, when that does not depend on anything"""
    key = C(key) if not isinstance(key, tuple) else key
    for op in reversed(cont[4] if cont[0] == 'obj' else ()):
        if op[0] == 'set' and op[1] == key:
            return strip(op[2])
        if op[0] == 'del' and op[1] == key:
            return None
        if op[0] in ('cnd', 'hav', 'clear', 'dflt') or op[0] == 'set' and not is_const(op[1]):
            return None
    return None


SELF = ('sym', 'self')
CTX = ('attr', ('owner', SELF), '_service_context')     # the context of the client a service belongs to
STORE = ('attr', CTX, 'state')
KW = ('sym', 'kwargs')


def sym(n):
    return ('sym', n)


def it(b, k):
    return ('item', b, C(k))


def at(b, *names):
    for n in names:
        b = ('attr', b, n)
    return b


def base_of(t):
    """the object a value started out as, whatever was put in since"""
    while t[0] == 'obj' and t[3] is not None:
        t = t[3]
    return t


def own_request(v):
    """something out of what the service itself computed for its request (which has no session)"""
    return v is not None and v[0] == 'item' and v[1][0] == 'call' and callname(v[1]) == 'get_request_parameters'


def known_in(r, facts, key, cont):
    """True/False/None: the container is known to have the key"""
    return facts.get(r.eng.norm_atom(('in', C(key), cont)))


def shows(t):
    from .terms import show
    return show(t) if t is not None else 'missing'


def kwval(ev, name, eng=None, state=None):
    """value(s) a call gets for a parameter, also out of **kwargs: [(state, value or None)]"""
    for n, v in ev.kw:
        if n == name:
            return [(state, strip(v))]
    for n, v in ev.kw:
        if n == '**':
            return [(s, v if v is None else strip(v)) for s, v in values(eng, state, v, name)]
    return [(state, None)]


from .terms import contains  # noqa: E402
from .terms import mentions  # noqa: E402


def impls(ctx, base, method):
    """dotted names of a method for a class and all its subclasses"""
    return [c.dotted + '.' + method for c in ctx.prog.subclasses(base) if ctx.prog.find_method(c, method)]


def mod_slash(t, base, facts, eng, rstrip=False):
    """set of length differences when a string is another one give or take a trailing slash, else None"""
    t, base = strip(t), strip(base)
    if t == base:
        return {0}
    if t[0] == 'cat' and len(t[1]) == 2 and t[1][1] == C('/'):
        d = mod_slash(t[1][0], base, facts, eng, rstrip)
        return {x + 1 for x in d} if d else None
    if t[0] == 'slice' and t[2] in (C(None), C(0)) and t[3] == C(-1) and t[4] == C(None):
        b = strip(t[1])
        ends = ('call', ('meth', b, 'endswith'), (C('/'),), ())
        last = ('item', b, C(-1))
        if facts.get(('T', ends)) is True or known_eq(facts, last, C('/'), eng):
            d = mod_slash(b, base, facts, eng, rstrip)
            return {x - 1 for x in d} if d else None
        return None
    if is_call(t, 'removesuffix') and t[2] == (C('/'),) or rstrip and is_call(t, 'rstrip') and t[2] == (C('/'),):
        d = mod_slash(recv(t), base, facts, eng, rstrip)
        return d | {x - 1 for x in d} if d else None
    return None


def class_const(ctx, cls, name):
    """literal value of a class attribute, None when there is none"""
    import ast
    ca = ctx.prog.class_attr(cls, name)
    if ca is None:
        return None
    try:
        return ast.literal_eval(ca[1])
    except (ValueError, TypeError):
        return None


def params_of(ctx, dotted):
    """{name: (takes a list, required)} of a message class, from its c_param table"""
    import ast
    cls = ctx.prog.cls(dotted)

    def table(mod, e):
        if isinstance(e, ast.Dict):
            return {k.value: kind(mod, v) for k, v in zip(e.keys, e.values) if isinstance(k, ast.Constant)}
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'copy':
            return table(mod, e.func.value)
        if isinstance(e, ast.Attribute) and e.attr == 'c_param':
            r = ctx.prog.resolve_expr(mod, e.value)
            return params_of(ctx, r[1].dotted) if r and r[0] == 'cls' else {}
        return {}

    def kind(mod, e):
        for _ in range(4):
            if isinstance(e, (ast.Name, ast.Attribute)):
                r = ctx.prog.resolve_expr(mod, e)
                if not r or r[0] != 'const' or r[3] is None:
                    return None
                mod, e = r[1], r[3]
        if isinstance(e, ast.Tuple) and len(e.elts) > 1:
            return isinstance(e.elts[0], ast.List), isinstance(e.elts[1], ast.Constant) and bool(e.elts[1].value)
        return None

    for c in ctx.prog.mro(cls):
        res = None
        for st in getattr(c, 'node', cls.node).body if hasattr(c, 'node') else ():
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'c_param' for t in st.targets):
                res = table(c.module, st.value)
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and \
                    st.value.func.attr == 'update' and isinstance(st.value.func.value, ast.Name) and \
                    st.value.func.value.id == 'c_param' and res is not None and st.value.args:
                res = {**res, **table(c.module, st.value.args[0])}
        if res is not None:
            return res
    return {}


def c_param(table):
    """a c_param table as a term"""
    return dct({k: ('tup', (lst(sym('str')) if v and v[0] else ('ext', 'builtins.str'), C(bool(v and v[1])))) for k, v in table.items()})


LITERAL = [None]


def literal(t):
    """what a module level constant stands for"""
    v = LITERAL[0](t) if t[0] == 'glob' and LITERAL[0] is not None else None
    return t if v is None else v


def elements(t):
    """elements of a frozen list or tuple, None when they are not known"""
    t = literal(strip(t))
    if t[0] == 'tup':
        return [strip(x) for x in t[1]]
    if t[0] == 'obj' and t[3] is None and all(op[0] == 'e' for op in t[4]):
        return [strip(op[1]) for op in t[4]]
    if t[0] == 'call' and callname(t) in ('list', 'tuple') and len(t[2]) == 1:
        return elements(t[2][0])
    if t[0] == 'cat':
        res = [elements(x) for x in t[1]]
        return sum(res, []) if all(x is not None for x in res) else None
    return None


def callers(ctx, *names):
    """dotted names of all functions of the repository that mention one of the names"""
    import ast
    res = []
    for f in ctx.prog.all_functions():
        for node in ast.walk(f.node):
            if isinstance(node, ast.Attribute) and node.attr in names or isinstance(node, ast.Name) and node.id in names:
                res.append(f.dotted)
                break
    return res


def _api():
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'api.txt')) as fp:
        return set(fp.read().split())


API = _api()        # the functions the rules are about; any other one is a part of those that call it


def in_api(ctx, name):
    """one of the functions the rules are about, also when moved, or written for another class of the same family"""
    if name in API:
        return True
    simple = name.rsplit('.', 1)[-1]
    same = [x for x in API if x.rsplit('.', 1)[-1] == simple]
    still = [x for x in same if ctx.prog.func(x) is not None]
    if not still:
        return bool(same)
    mine = ctx.prog.func(name)
    if mine is None or mine.cls is None:
        return False
    family = {x.dotted for x in ctx.prog.mro(mine.cls)} | {x.dotted for x in ctx.prog.subclasses(mine.cls)}
    return any(x.rsplit('.', 1)[0] in family for x in same)


def roots(ctx, name):
    """the functions a function is a part of: itself, or what calls it when it is a helper"""
    todo, seen, res = [name], set(), []
    while todo:
        f = todo.pop(0)
        if f in seen:
            continue
        seen.add(f)
        simple = f.rsplit('.', 1)[-1]
        cs = [] if in_api(ctx, f) else [c for c in callers(ctx, simple) if c != f]
        if cs:
            todo.extend(cs)
        elif f not in res:
            res.append(f)
    return res


def owners(ctx, *names):
    """the functions that mention one of the names themselves or by way of a helper"""
    res = []
    for f in callers(ctx, *names):
        for x in roots(ctx, f):
            if x not in res:
                res.append(x)
    return res


OPS = {'Add': lambda a, b: a + b, 'Sub': lambda a, b: a - b, 'Mult': lambda a, b: a * b, 'FloorDiv': lambda a, b: a // b,
       'Div': lambda a, b: a / b, 'Mod': lambda a, b: a % b}


def numval(t, x, n):
    """value of an arithmetic term when x is n, None when it depends on anything else"""
    t = strip(t)
    if t == x:
        return n
    if is_const(t):
        return t[2] if isinstance(t[2], (int, float)) else None
    if t[0] == 'op' and t[1] in OPS and len(t[2]) == 2:
        a, b = numval(t[2][0], x, n), numval(t[2][1], x, n)
        try:
            return None if a is None or b is None else OPS[t[1]](a, b)
        except ZeroDivisionError:
            return None
    if t[0] == 'call' and t[1] == ('ext', 'builtins.int') and len(t[2]) == 1:
        a = numval(t[2][0], x, n)
        return None if a is None else int(a)
    return None


def admits(facts, x, n):
    """the facts do not rule out that the number x is n"""
    for a, p in facts.items():
        k = a[0]
        if k == '=':
            v = numval(a[1], x, n)
            if v is not None and (not is_const(p) or v != p[2]):
                return False
        elif k in ('eq', 'lt', 'le'):
            u, v = numval(a[1], x, n), numval(a[2], x, n)
            if u is not None and v is not None:
                if {'eq': u == v, 'lt': u < v, 'le': u <= v}[k] is not p:
                    return False
        elif k == 'in':
            u, el = numval(a[1], x, n), elements(a[2])
            if u is None:
                continue
            if el is not None and all(is_const(e) for e in el):
                if (u in [e[2] for e in el]) is not p:
                    return False
            elif a[2][0] == 'call' and callname(a[2]) == 'range' and all(is_const(y) for y in a[2][2]):
                if (u in range(*[y[2] for y in a[2][2]])) is not p:
                    return False
        elif k == 'T':
            u = numval(a[1], x, n)
            if u is not None and bool(u) is not p:
                return False
            t = strip(a[1])
            if t[0] == 'attr' and t[2] == 'ok' and x == ('attr', t[1], 'status_code') and (n < 400) is not p:
                return False
    return True


# ---------------------------------------------------------------------------------------------- sample values

def lst(*x):
    return ('obj', 'list', None, None, tuple(('e', i if isinstance(i, tuple) else C(i)) for i in x), ())


def dct(d):
    return ('obj', 'dict', None, None, tuple(('set', C(a), b if isinstance(b, tuple) else C(b)) for a, b in d.items()), ())


def constants(t):
    """the constants a collection is made of, or None"""
    if is_const(t):
        return {t[2]}
    if not isinstance(t, tuple) or not t:
        return None
    t = literal(t)
    if t[0] == 'tup':
        ts = t[1]
    elif t[0] == 'obj' and t[1] in ('list', 'set') and all(op[0] in ('e', 'ext') for op in t[4]) and t[2] is None:
        ts = [op[1] for op in t[4]]
    else:
        return None
    res = set()
    for x in ts:
        c = constants(strip(x))
        if c is None:
            return None
        res |= c
    return res


__all__ = [n for n in dir() if not n.startswith('_')]
