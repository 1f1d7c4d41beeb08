"""Client credentials travel only the way the chosen method prescribes."""
from ..messages import ways
from ..q import *
from ..terms import C, show

M = 'oidcrp.client_auth.'
SRV = sym('service')
REQ = sym('request')
HTTP = sym('http_args')
SCTX = context_of(('owner', SRV))
METHODS = ('client_secret_basic', 'client_secret_post', 'bearer_header', 'bearer_body', 'client_secret_jwt',
           'private_key_jwt')
SECRETS = (it(KW, 'password'), it(REQ, 'client_secret'), at(SCTX, 'client_secret'), it(KW, 'client_secret'))


def check(ctx):
    ctx.rule('C12.way', 'without other instructions a client authenticates at the token endpoint', 1)
    ways(ctx, 'C12.way', ('default_authn_method',))
    ctx.rule('C12.unknown', 'an unknown method name is an error')
    ctx.rule('C12.factory', 'a known method name leads to the implementation of that method')
    ctx.rule('C12.basic', 'basic: header Basic base64(quoted id:quoted secret), no secret in the message')
    ctx.rule('C12.post', 'post: id and secret in the message, no header added')
    ctx.rule('C12.bearer', 'bearer methods: the token only in the header or only in the body')
    ctx.rule('C12.jwt', 'JWT methods: an assertion, no secret and no header')
    ctx.rule('C12.client_id', 'what is sent as identifier is that of the client')
    impl = factory(ctx)
    spec = {'client_secret_basic': basic, 'client_secret_post': post, 'bearer_header': bearer_header,
            'bearer_body': bearer_body, 'client_secret_jwt': jwt, 'private_key_jwt': jwt}
    done = set()
    for name, cls in impl.items():
        if (cls, spec[name]) not in done:
            done.add((cls, spec[name]))
            spec[name](ctx, cls)
    method_used(ctx)


def factory(ctx):
    impl = {}
    r = ctx.run(M + 'factory')
    if r is None:
        return impl
    for o in r.returns:
        v = r.value(o)
        names = [n for n in METHODS if known_eq(o.facts, sym('auth_method'), C(n), r.eng)]
        ctx.ob('C12.unknown', bool(names), r.func, 'factory', 'a name that is not known yields ' + shows(v))
    for n in METHODS:
        r = ctx.run(M + 'factory', args={'auth_method': C(n)})
        cls = {strip(r.value(o))[2] if r.value(o)[0] == 'obj' else shows(r.value(o)) for o in r.returns}
        cls = {c[1] if isinstance(c, tuple) else c for c in cls}
        if ctx.ob('C12.factory', len(cls) == 1 and not r.raises, r.func, n, 'leads to {}'.format(sorted(map(str, cls)))):
            impl[n] = cls.pop()
    return impl


def secret_atoms(a):
    return a[0] == 'in' and a[2] == REQ or contains(('x',) + a, lambda t: t == at(SCTX, 'client_secret'))


def run(ctx, cls, **kw):
    return ctx.run(cls + '.construct', **kw)


def header(r, o):
    """[(state, headers, Authorization)] of the HTTP arguments returned"""
    v = r.value(o)
    return [(s2, h, a) for s, h in r.get(o, v, 'headers') if h is not None for s2, a in r.get(s, h, 'Authorization')]


def no_header(ctx, rid, r, o):
    """the HTTP arguments are those given"""
    v = r.value(o)
    ok = v == HTTP or v == C(None) and fact(o.facts, r.eng, 'none', HTTP) is True or v[0] == 'obj' and not v[4] and v[3] in (None, HTTP)
    ok = ok and not any(mentions(e.recv, HTTP) for _, e, _ in events(o, 'setitem', 'update'))
    ctx.ob(rid, ok, r.func, 'headers', 'HTTP arguments returned are ' + shows(v))


def secret_gone(ctx, rid, r, o):
    for s, x in r.get(o, REQ, 'client_secret'):
        ctx.ob(rid, x is None, r.func, 'client_secret', 'the message has the client secret ' + shows(x))


def quoted(t):
    t = strip(t)
    return strip(t[2][0] if t[2] else callarg(t, 'string', 0)) if \
        is_call(t, 'quote_plus') and callarg(t, 'safe', 1) in (None, C('')) or \
        is_call(t, 'quote') and callarg(t, 'safe', 1) == C('') else None


def basic(ctx, cls):
    r = run(ctx, cls)
    if r is None:
        return
    for o in r.returns:
        hs = header(r, o)
        ctx.ob('C12.basic', bool(hs), r.func, 'Authorization', 'no header in ' + shows(r.value(o)))
        for s, h, a in hs:
            p = parts(a) if a is not None else []
            ok = len(p) == 2 and p[0] == C('Basic ')
            cred = None
            if ok:
                t = strip(p[1])
                if is_call(t, 'decode') and is_call(recv(t), 'b64encode'):
                    t = strip(recv(t))
                    t = strip(callarg(t, 's', 0))
                    if is_call(t, 'encode'):
                        cred = parts(strip(recv(t)))
                    elif is_call(t, 'as_bytes'):
                        cred = parts(strip(callarg(t, 's', 0)))
            ok = cred is not None and len(cred) == 3 and cred[1] == C(':')
            if not ctx.ob('C12.basic', ok, r.func, 'Authorization', 'header is ' + shows(a)):
                continue
            user, pw = quoted(cred[0]), quoted(cred[2])
            ctx.ob('C12.basic', user is not None and pw is not None, r.func, 'quoting', 'not percent-encoded: ' + shows(a))
            ctx.ob('C12.client_id', user is None or user in (it(KW, 'user'), at(SCTX, 'client_id')), r.func, 'user',
                   'user is ' + shows(user))
            ctx.ob('C12.basic', pw is None or pw in SECRETS, r.func, 'password', 'password is ' + shows(pw))
        secret_gone(ctx, 'C12.basic', r, o)
        own_id(ctx, r, o)


def own_id(ctx, r, o):
    for s, x in r.get(o, REQ, 'client_id'):
        ok = x is None or x == it(REQ, 'client_id') or x == at(SCTX, 'client_id') or \
            is_call(x, 'get_client_id')
        ctx.ob('C12.client_id', ok, r.func, 'client_id', 'client id is ' + shows(x))


def post(ctx, cls):
    r = run(ctx, cls, keep=secret_atoms)
    if r is None:
        return
    for o in r.returns:
        no_header(ctx, 'C12.post', r, o)
        for s, x in r.get(o, REQ, 'client_id'):
            ctx.ob('C12.post', x == at(SCTX, 'client_id'), r.func, 'client_id', 'client id is ' + shows(x))
        for s, x in r.get(o, REQ, 'client_secret'):
            ctx.ob('C12.post', x in SECRETS, r.func, 'client_secret', 'client secret is ' + shows(x))
            if x == at(SCTX, 'client_secret'):
                ctx.ob('C12.post', truthy(s.facts, r.eng, x) is True, r.func, 'missing',
                       'an empty secret is sent', )


def token_of(ctx, r, o, t):
    """a token found the way find_token does, or directly in the message"""
    return t is not None and is_call(t, 'find_token') or t in (it(REQ, 'access_token'), it(REQ, 'refresh_token'))


def bearer_header(ctx, cls):
    r = run(ctx, cls, opaque={'find_token'})
    for o in r.returns if r else ():
        hs = header(r, o)
        ctx.ob('C12.bearer', bool(hs), r.func, 'Authorization', 'no header in ' + shows(r.value(o)))
        for s, h, a in hs:
            p = parts(a) if a is not None else []
            ok = len(p) == 2 and p[0] == C('Bearer ') and token_of(ctx, r, o, strip(p[1]))
            if ctx.ob('C12.bearer', ok, r.func, 'Authorization', 'header is ' + shows(a)):
                ctx.ob('C12.bearer', truthy(s.facts, r.eng, strip(p[1])) is True, r.func, 'empty', 'the token may be empty')
        for e in [e for _, e, _ in events(o, 'setitem') if strip(e.recv) == REQ]:
            ctx.ob('C12.bearer', e.args[0] not in (C('access_token'), C('refresh_token')), r.func, 'message',
                   'the token is put in the message', e.line)
    # whatever is used from the message is taken out of it
    r = ctx.run(M + 'find_token', args={'token_type': C('access_token')},
                keep=lambda a: a == ('none', REQ) or a == ('in', C('access_token'), REQ))
    for o in r.returns if r else ():
        for s, x in r.get(o, REQ, 'access_token'):
            ok = x is None or known_in(r, s.facts, 'access_token', REQ) is False or \
                fact(s.facts, r.eng, 'none', REQ) is True
            ctx.ob('C12.bearer', ok, r.func, 'access_token', 'the token stays in the message')


def bearer_body(ctx, cls):
    r = run(ctx, cls, opaque={'find_token'}, loop_iters=2)
    for o in r.returns if r else ():
        no_header(ctx, 'C12.bearer', r, o)
        for s, x in r.get(o, REQ, 'access_token'):
            ok = token_of(ctx, r, o, x) and truthy(s.facts, r.eng, x) is True
            ctx.ob('C12.bearer', ok, r.func, 'access_token', 'token is ' + shows(x))


def jwt(ctx, cls):
    r = run(ctx, cls, opaque={'_construct_client_assertion', 'assertion_jwt'})
    for o in r.returns if r else ():
        v = r.value(o)
        ok = not any(contains(v, lambda t: t == s) for s in SECRETS) and \
            (v != C(None) or fact(o.facts, r.eng, 'none', HTTP) is True)
        for s, h, a in header(r, o) if base_of(v) == HTTP or v[0] == 'obj' else ():
            ok = ok and (a is None or a == it(it(HTTP, 'headers'), 'Authorization'))
        ctx.ob('C12.jwt', ok, r.func, 'headers', 'HTTP arguments returned are ' + shows(v))
        secret_gone(ctx, 'C12.jwt', r, o)
        for s, x in r.get(o, REQ, 'client_assertion'):
            ok = x in (it(KW, 'client_assertion'), it(REQ, 'client_assertion')) or x is not None and \
                is_call(x, '_construct_client_assertion', 'assertion_jwt', 'to_jwt')
            ctx.ob('C12.jwt', ok, r.func, 'client_assertion', 'assertion is ' + shows(x))
        for s, x in r.get(o, REQ, 'client_assertion_type'):
            ok = x in (it(KW, 'client_assertion_type'), it(REQ, 'client_assertion_type'),
                       C('urn:ietf:params:oauth:client-assertion-type:jwt-bearer'))
            ctx.ob('C12.jwt', ok, r.func, 'client_assertion_type', 'type is ' + shows(x))


def method_used(ctx):
    ctx.rule('C12.endpoint', 'the method used at the token endpoint is the negotiated one, or the default of the service')
    ctx.rule('C12.given', 'a method named for a request is the one used for it')
    neg = it(at(CTX, 'behaviour'), 'token_endpoint_auth_method')
    for base in ('oidcrp.oidc.access_token.AccessToken', 'oidcrp.oidc.refresh_access_token.RefreshAccessToken'):
        for name in impls(ctx, base, 'get_authn_method'):
            r = ctx.run(name, keep=lambda a: mentions(('x',) + a, C('token_endpoint_auth_method')))
            for o in r.returns if r else ():
                v = r.value(o)
                have = known_in(r, o.facts, 'token_endpoint_auth_method', neg[1])
                ok = v == neg or have is False and (v == at(SELF, 'default_authn_method') or is_const(v))
                ctx.ob('C12.endpoint', ok, r.func, 'method', 'method is {}'.format(shows(v)))
    for cls in ctx.prog.subclasses('oidcrp.service.Service'):
        if cls.dotted == 'oidcrp.service.Service' or ctx.prog.find_method(cls, 'get_authn_method') is None:
            continue
        if class_const(ctx, cls, 'endpoint_name') == 'token_endpoint' and cls.dotted.startswith('oidcrp.oidc.'):
            f = ctx.prog.find_method(cls, 'get_authn_method')
            ctx.ob('C12.endpoint', 'oidcrp.oidc.' in f.dotted, cls.dotted, 'get_authn_method',
                   'the negotiated method is not used')
    for name in impls(ctx, 'oidcrp.service.Service', 'get_headers'):
        own = class_const(ctx, ctx.prog.cls(name.rpartition('.')[0]), 'endpoint_name')
        own = C(own) if own is not None else None
        r = ctx.run(name, opaque={'get_authn_method', 'init_authentication_method'},
                    keep=lambda a: a == ('T', sym('authn_method')))
        for o in r.returns if r else ():
            for _, e, f in calls(o, 'init_authentication_method', 'get_authn_header'):
                m = strip(arg(e, 'authn_method', 1, C(None)))
                given = truthy(f, r.eng, sym('authn_method'))
                ok = m == sym('authn_method') and given is not False or is_call(m, 'get_authn_method') and given is False
                ctx.ob('C12.given', ok, r.func, 'authn_method', 'method used is ' + show(m), e.line)
                ep = [x for _, x in kwval(e, 'authn_endpoint', r.eng, o.state)]
                ctx.ob('C12.given', all(x == at(SELF, 'endpoint_name') or x is not None and x == own for x in ep), r.func, 'authn_endpoint',
                       'endpoint named is {}'.format([shows(x) for x in ep]), e.line)
    r = ctx.run('oidcrp.service.Service.get_authn_header', opaque={'init_authentication_method'})
    for o in r.returns if r else ():
        c = calls(o, 'init_authentication_method')
        ctx.ob('C12.given', bool(c) or truthy(o.facts, r.eng, sym('authn_method')) is False, r.func, 'authn_method',
               'no authentication is added')
        for _, e, f in c:
            ctx.ob('C12.given', strip(arg(e, 'authn_method', 1)) == sym('authn_method') and strip(arg(e, 'request', 0)) == REQ,
                   r.func, 'authn_method', 'method used is ' + shows(arg(e, 'authn_method', 1)), e.line)
    for name in impls(ctx, 'oidcrp.service.Service', 'init_authentication_method'):
        r = ctx.run(name)
        for o in r.returns if r else ():
            v = r.value(o)
            if truthy(o.facts, r.eng, sym('authn_method')) is False:
                continue
            ok = is_call(v, 'construct') and contains(recv(v), lambda t: t == sym('authn_method')) and \
                strip(callarg(v, 'request', 0)) == REQ
            ctx.ob('C12.given', ok, r.func, 'construct', 'returns ' + shows(v))
    for name in impls(ctx, 'oidcrp.service.Service', 'get_request_parameters'):
        r = ctx.run(name, opaque={'get_authn_method', 'construct_request', 'get_headers', 'get_endpoint'},
                    keep=lambda a: a == ('T', sym('authn_method')))
        for o in r.returns if r else ():
            for _, e, f in calls(o, 'get_headers'):
                for _, m in kwval(e, 'authn_method', r.eng, o.state):
                    given = truthy(f, r.eng, sym('authn_method'))
                    ok = m is not None and (m == sym('authn_method') and given is not False or
                                            is_call(m, 'get_authn_method') and given is False)
                    ctx.ob('C12.given', ok, r.func, 'authn_method', 'method used is ' + shows(m), e.line)
