"""Unpredictable values come from a cryptographic random source."""
import ast
import string

from ..patching import earlier, names_in
from ..q import *
from ..terms import C, show, walk

UTIL = 'oidcrp.util.'
# what draws from the system's cryptographic source, per unit asked for: how many characters
DRAW = {'oidcmsg.util.rndstr': 1, 'secrets.token_urlsafe': 1, 'secrets.token_hex': 2, 'secrets.token_bytes': 1,
        'os.urandom': 1, 'oidcrp.util.rndstr': 1, 'oidcrp.util.unreserved': 1}
FIXED = {'uuid.uuid4': 32}
NAMES = tuple({n.split('.')[-1] for n in list(DRAW) + list(FIXED)} | {'choice', 'choices'})
WEAK_OK = {'random.SystemRandom', 'random'}


def check(ctx):
    primitive(ctx)
    sources_used(ctx)
    uses(ctx)
    ctx.rule('C10.anew', 'no random value is drawn once for several calls', 5)
    earlier(ctx, 'C10.anew', lambda f: names_in(f.node) & {'rndstr', 'token_urlsafe', 'token_hex', 'token_bytes', 'uuid4', 'urandom', 'SystemRandom', 'choice', 'randbelow'},
            ('rndstr', 'secrets', 'random', 'uuid', 'seed'))


# ------------------------------------------------------------------ the primitives
def resolve_name(ctx, dotted):
    """library names a module level name of the repository is defined by"""
    modname, _, name = dotted.rpartition('.')
    mod = ctx.prog.module(modname)
    res = []
    for st in ast.walk(mod.tree):
        if isinstance(st, (ast.Assign, ast.AnnAssign)):
            tg = st.targets if isinstance(st, ast.Assign) else [st.target]
            if any(isinstance(x, ast.Name) and x.id == name for x in tg):
                res.append(st.value)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                if (a.asname or a.name) == name:
                    res.append(st)
    return mod, res


def lib_name(imports, node):
    """dotted library name an expression refers to"""
    names = []
    while isinstance(node, ast.Attribute):
        names.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name) and node.id in imports:
        return '.'.join([imports[node.id]] + names[::-1])
    return None


def imports_of(tree):
    res = {}
    for st in ast.walk(tree):
        if isinstance(st, ast.Import):
            for a in st.names:
                res[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(st, ast.ImportFrom) and not st.level:
            for a in st.names:
                res[a.asname or a.name] = '{}.{}'.format(st.module, a.name)
    return res


def is_system_source(ctx, t):
    """the receiver of choice() is the system's source"""
    t = strip(t)
    if t == ('ext', 'secrets'):
        return True
    if t[0] == 'call' and t[1][0] == 'ext' and t[1][1] in ('random.SystemRandom', 'secrets.SystemRandom'):
        return True
    if t[0] == 'glob':
        mod, defs = resolve_name(ctx, t[1])
        imp = imports_of(mod.tree)
        return bool(defs) and all(isinstance(d, ast.Call) and lib_name(imp, d.func) in
                                  ('random.SystemRandom', 'secrets.SystemRandom') for d in defs)
    return False


def chars(t):
    """set of characters of an alphabet, None when it is not known"""
    t = strip(t)
    if t[0] == 'ext' and t[1].startswith('string.') and hasattr(string, t[1][7:]):
        return set(getattr(string, t[1][7:]))
    if is_const(t) and isinstance(t[2], str):
        return set(t[2])
    if t[0] == 'cat':
        sub = [chars(x) for x in t[1]]
    elif t[0] == 'op' and t[1] == 'Add':
        sub = [chars(x) for x in t[2]]
    else:
        return None
    return set().union(*sub) if all(x is not None for x in sub) else None


def draw_of(ctx, t):
    """number of characters a call draws from the system's source, 0 when that is no such call"""
    t = strip(t)
    if t[0] != 'call':
        return 0
    fn = t[1]
    name = callname(t)
    dotted = fn[1] if fn[0] in ('ext', 'func', 'cls') else None
    if name in ('choice', 'choices'):
        src = fn[1] if fn[0] in ('meth', 'attr') else ('ext', fn[1].rpartition('.')[0])
        if not is_system_source(ctx, src):
            return 0
        abc = chars(t[2][0]) if t[2] else None
        if abc is None or len(abc) < 62:
            return 0
        k = callarg(t, 'k') if name == 'choices' else C(1)
        return k[2] if k is not None and is_const(k) else 0
    if dotted in DRAW:
        n = callarg(t, 'size', 0) or callarg(t, 'nbytes', 0)
        return n[2] * DRAW[dotted] if n is not None and is_const(n) else 0
    return 0


def primitive(ctx):
    ctx.rule('C10.primitive', 'random strings consist of the number of characters asked for, each drawn separately by the '
             "system's source from at least 62 characters")
    size = 3
    for name in ('rndstr', 'unreserved'):
        r = ctx.run(UTIL + name, args={'size': C(size)}, opaque=set(), transparent={name})
        if r is None:
            continue
        ctx.ob('C10.primitive', not r.func.decs, r.func, 'decorators', 'results may be cached: ' + ', '.join(r.func.decs))
        for o in r.returns:
            v = r.value(o)
            pieces = [strip(x) for x in parts(v)]
            if len(pieces) == 1 and is_call(pieces[0], 'join') and recv(pieces[0]) == C(''):
                pieces = [strip(callarg(pieces[0], 'iterable', 0))]
            drawn = {strip(e.res) for e, _ in o.trace if e.kind == 'call' and e.res is not None}
            n = sum(draw_of(ctx, p) for p in pieces)
            looped = any(contains(('x',) + a, lambda x: is_call(x, 'len') and x[2] and strip(x[2][0]) == v) for a in o.facts)
            ok = all(draw_of(ctx, p) and p in drawn for p in pieces) and len(set(pieces)) == len(pieces) and \
                (n == size or looped)
            ctx.ob('C10.primitive', ok, r.func, 'characters', '{} independent characters out of {}: {}'.format(
                n, size, show(v)))


# ------------------------------------------------------------------ nothing else is used
def weak_uses(tree):
    """(line, name) of every reference to a source that can be predicted"""
    imp = imports_of(tree)
    for node in ast.walk(tree):
        if isinstance(node, (ast.Attribute, ast.Name)) and isinstance(getattr(node, 'ctx', None), ast.Load):
            n = lib_name(imp, node)
            if n is None:
                continue
            if n.startswith('random.') and n not in WEAK_OK or n.startswith('numpy.random') or \
                    n in ('uuid.uuid1', 'uuid.uuid3', 'uuid.uuid5', 'uuid.getnode', 'tempfile.mktemp'):
                yield node.lineno, n
        elif isinstance(node, ast.ImportFrom) and node.module == 'random' and not node.level:
            for a in node.names:
                if a.name != 'SystemRandom':
                    yield node.lineno, 'random.' + a.name


SAMPLE = '''
import random as r
from uuid import uuid1
import uuid
x = r.choice('abc')
y = uuid1().hex
z = r.SystemRandom().choice('abc')
w = uuid.uuid4()
'''


def sources_used(ctx):
    ctx.rule('C10.weak', 'no module refers to a source of numbers that can be predicted', minimum=20)
    if [n for _, n in weak_uses(ast.parse(SAMPLE))] != ['random.choice', 'uuid.uuid1']:
        ctx.broken('the query for weak sources does not find its own example')
    for m in ctx.prog.repo_modules:
        found = list(weak_uses(m.tree))
        ctx.ob('C10.weak', not found, m.name, 'source', 'uses {} in line {}'.format(*(found[0][::-1] if found else ('', ''))))


# ------------------------------------------------------------------ every use
def fresh(ctx, o, v, least, conf=None):
    """the value is drawn in this very call, and long enough"""
    drawn = {strip(e.res) for e, _ in o.trace if e.kind == 'call' and e.res is not None}
    for x in walk(strip(v)):
        if isinstance(x, tuple) and x and x[0] == 'call' and x in drawn:
            if draw_of(ctx, x) >= least:
                return True
            if x[1][0] == 'ext' and FIXED.get(x[1][1], 0) >= least:
                return not contains(strip(v), lambda y: y[0] == 'slice' and mentions(y, x))
            n = callarg(x, 'size', 0)
            if conf is not None and n is not None and callname(x) in ('rndstr', 'unreserved', 'token_urlsafe') and \
                    conf(strip(n)):
                return True
            # the default length
            if callname(x) in ('rndstr', 'unreserved') and n is None and least <= 16:
                return True
    return False


def sliced(v):
    return contains(strip(v), lambda y: y[0] == 'slice' and contains(y[1], lambda z: is_call(z, *NAMES)))


def watch_attr(name):
    return lambda e: e.kind == 'setattr' and e.args[0] == C(name) or e.kind == 'call' and e.name in NAMES


def uses(ctx):
    ctx.rule('C10.fresh', 'every state, nonce, verifier, identifier and generated seed is drawn anew, and long enough')
    R = 'oidcrp.rp_handler.RPHandler.'
    # session key
    r = ctx.run('oidcrp.state_interface.StateInterface.create_state')
    for o in r.returns if r else ():
        for _, e, f in events(o, 'setitem'):
            k = strip(e.args[0])
            if k == sym('key') and truthy(f, r.eng, sym('key')) is not False:
                continue
            ctx.ob('C10.fresh', fresh(ctx, o, k, 20) and not sliced(k), r.func, 'state', 'session key is ' + show(k), e.line)
    # nonces
    r = ctx.run(R + 'init_authorization')
    for o in r.returns if r else ():
        for _, e, _ in calls(o, 'store_nonce2state'):
            n = strip(arg(e, 'nonce', 0))
            if n[0] == 'item' and n[1] == sym('req_args') or contains(n, lambda x: x == C('request_args')):
                continue
            ctx.ob('C10.fresh', fresh(ctx, o, n, 20) and not sliced(n), r.func, 'nonce', 'nonce is ' + show(n), e.line)
    r = ctx.run('oidcrp.oidc.authorization.Authorization.oidc_pre_construct', watch=lambda e: e.kind != 'delitem')
    for o in r.returns if r else ():
        for _, e, _ in events(o, 'setitem'):
            if e.args[0] == C('nonce'):
                n = strip(e.args[1])
                if n == it(KW, 'nonce') or n == it(sym('request_args'), 'nonce'):
                    continue
                ctx.ob('C10.fresh', fresh(ctx, o, n, 20) and not sliced(n), r.func, 'nonce', 'nonce is ' + show(n), e.line)
    # logout state
    r = ctx.run('oidcrp.oidc.end_session.EndSession.add_state')
    for o in r.returns if r else ():
        for _, e, _ in calls(o, 'store_logout_state2state'):
            n = strip(arg(e, 'logout_state', 0))
            if n == it(sym('request_args'), 'state'):
                continue
            ctx.ob('C10.fresh', fresh(ctx, o, n, 20) and not sliced(n), r.func, 'logout state', 'logout state is ' + show(n),
                   e.line)
    # PKCE
    r = ctx.run('oidcrp.oauth2.add_on.pkce.add_code_challenge')
    for o in r.returns if r else ():
        for _, e, _ in calls(o, 'store_item'):
            for s, v in r.get(o, arg(e, 'item', 0), 'code_verifier'):
                ok = v is not None and fresh(ctx, o, v, 43, lambda n: n[0] == 'item' and n[2] == C('code_challenge_length')) \
                    and not sliced(v)
                ctx.ob('C10.fresh', ok, r.func, 'code_verifier', 'verifier is ' + shows(v), e.line)
    # identifiers of assertions and proofs
    r = ctx.run('oidcrp.client_auth.assertion_jwt')
    for o in r.returns if r else ():
        v = r.value(o)
        tok = recv(v) if is_call(v, 'to_jwt') else v
        for s, n in r.get(o, tok, 'jti'):
            ctx.ob('C10.fresh', n is not None and fresh(ctx, o, n, 20) and not sliced(n), r.func, 'jti', 'jti is ' + shows(n))
    r = ctx.run('oidcrp.oauth2.add_on.dpop.dpop_header')
    for o in r.returns if r else ():
        for _, e, _ in calls(o, 'create_header'):
            src = strip(r.eng.freeze(o.state, e.recv))
            for s, n in r.get(o, src, 'jti'):
                ctx.ob('C10.fresh', n is not None and fresh(ctx, o, n, 20) and not sliced(n), r.func, 'jti',
                       'jti is ' + shows(n), e.line)
    # request file name
    r = ctx.run('oidcrp.oidc.utils.construct_request_uri')
    for o in r.returns if r else ():
        v = r.value(o)
        ok = v[0] == 'tup' and all(fresh(ctx, o, x, 10) for x in v[1])
        ctx.ob('C10.fresh', ok, r.func, 'file name', 'returns ' + show(v))
    # seeds
    for name in ('oidcrp.service_context.ServiceContext.__init__', R + '__init__', 'oidcrp.configure.RPConfiguration.__init__'):
        r = ctx.run(name, watch=watch_attr('hash_seed'))
        made = False
        for o in r.returns if r else ():
            for _, v in r.get_attr(o, SELF, 'hash_seed'):
                if contains(v, lambda x: x in (C('hash_seed'), C('HASH_SEED'), sym('hash_seed'))) and \
                        not contains(v, lambda x: is_call(x, *NAMES)):
                    continue
                made = True
                ctx.ob('C10.fresh', fresh(ctx, o, v, 16) and not sliced(v), r.func, 'hash_seed', 'seed is ' + shows(v))
        if r is not None:
            ctx.ob('C10.fresh', made, r.func, 'hash_seed', 'no seed is generated')
    r = ctx.run('oidcrp.cookie.CookieDealer.init_srv')
    for o in r.returns if r else ():
        for _, e, _ in events(o, 'setattr'):
            if e.args[0] == C('seed'):
                ctx.ob('C10.fresh', fresh(ctx, o, e.args[1], 16), r.func, 'seed', 'seed is ' + show(strip(e.args[1])), e.line)
