"""What the provider assigned at registration is what the client uses."""
from ..messages import kinds, ways
from ..q import *
from ..terms import C, show

ASSIGNED = {'client_id': (), 'client_secret': ('client_id',), 'client_secret_expires_at': ('client_id', 'client_secret'),
            'registration_access_token': ()}
RESP = sym('resp')
KJ = at(CTX, 'keyjar')
METHOD = 'token_endpoint_auth_method'


def check(ctx):
    ctx.rule('C25.way', 'a registration is posted to the registration endpoint, and read', 1)
    ways(ctx, 'C25.way', ('endpoint_name', 'http_method'), only=('Registration', 'RegistrationRead'))
    ctx.rule('C25.kind', 'a registration response is verified as one', 1)
    kinds(ctx, 'C25.kind', only=('Registration', 'RegistrationRead'))
    ctx.rule('C25.assigned', 'what the response assigns is what the client uses from then on', 8)
    ctx.rule('C25.kept', 'the whole response is kept')
    ctx.rule('C25.method', 'the token endpoint authentication method is the one named, basic if none is', 2)
    ctx.rule('C25.keys', "the client's own keys are available under its new id")
    ctx.rule('C25.secret', 'the secret becomes a key of the client', 2)
    ctx.rule('C25.read', 'the registration is read at the URI, with the token, of that response', 2)
    for name in impls(ctx, 'oidcrp.oidc.registration.Registration', 'update_service_context'):
        update(ctx, name)
    read(ctx)


def absent(r, f, k):
    return known_in(r, f, k, RESP) is False or truthy(f, r.eng, it(RESP, k)) is False


def update(ctx, name):
    r = ctx.run(name, keep=lambda a: a[0] == 'in' and (a[2] == RESP or a[2] == KJ))
    if r is None:
        return
    for o in r.outs:
        if o.kind == 'raise':
            ctx.ob('C25.assigned', False, r.func, 'raise', 'raises {} for a response'.format(o.value[1]))
            continue
        f = o.facts
        w = {}
        for _, e, _ in events(o, 'setattr'):
            if e.recv == CTX:
                w[e.args[0][2]] = strip(r.eng.freeze(o.state, e.args[1]))
        for k, pre in ASSIGNED.items():
            if k in w:
                ctx.ob('C25.assigned', w[k] == it(RESP, k), r.func, k, '{} becomes {}'.format(k, show(w[k])))
            else:
                ctx.ob('C25.assigned', absent(r, f, k) or any(absent(r, f, p) for p in pre), r.func, k,
                       'the {} in the response is not used'.format(k))
        rr = w.get('registration_response')
        if ctx.ob('C25.kept', rr is not None and base_of(rr) == RESP, r.func, 'registration_response',
                  'the response kept is ' + shows(rr)):
            lost = [op for op in all_ops(rr) if op[0] not in ('set',) or not is_const(op[1]) or op[1][2] != METHOD]
            ctx.ob('C25.kept', not lost, r.func, 'response', 'the response kept is changed: {}'.format(str(lost)[:100]))
            named = known_in(r, f, METHOD, RESP)
            for s, v in r.get(o, rr, METHOD):
                ok = v == it(RESP, METHOD) and named is not False or v == C('client_secret_basic') and named is False
                ctx.ob('C25.method', ok, r.func, METHOD, 'the method becomes ' + shows(v))
        cid = it(RESP, 'client_id')
        if 'client_id' not in w:
            continue
        imp = [e for _, e, _ in calls(o, 'import_jwks') if strip(e.recv) == KJ]
        if not imp:
            have = fact(f, r.eng, 'in', cid, KJ)
            ctx.ob('C25.keys', have is True, r.func, 'import_jwks', 'its keys are not available under the new client id')
        for e in imp:
            jw = arg(e, 'jwks', 0)
            jw = strip(jw) if jw else C(None)
            iss = arg(e, 'issuer_id', 1)
            ok = is_call(jw, 'export_jwks') and strip(recv(jw)) == KJ and callarg(jw, 'private', 0) == C(True) and \
                callarg(jw, 'issuer_id', 1, C('')) == C('') and iss is not None and strip(iss) == cid
            ctx.ob('C25.keys', ok, r.func, 'import_jwks', 'imports {} for {}'.format(show(jw), shows(iss)), e.line)
        if 'client_secret' in w:
            got = set()
            for _, e, _ in calls(o, 'add_symmetric'):
                who, key = arg(e, 'issuer_id', 0), arg(e, 'key', 1)
                if strip(e.recv) == KJ and key is not None and strip(key) == it(RESP, 'client_secret'):
                    got.add(strip(who) if who is not None else None)
            for who in (C(''), cid):
                ctx.ob('C25.secret', who in got, r.func, 'add_symmetric ' + show(who), 'the secret is no key of ' + show(who))


def read(ctx):
    reg = at(CTX, 'registration_response')
    cls = 'oidcrp.oidc.read_registration.RegistrationRead'
    for name in impls(ctx, cls, 'get_endpoint'):
        r = ctx.run(name)
        for o in r.outs if r else ():
            v = r.value(o) if o.kind == 'return' else C('')
            ok = v == it(reg, 'registration_client_uri') or v in (C(''), C(None)) and \
                known_in(r, o.facts, 'registration_client_uri', reg) is False
            ctx.ob('C25.read', ok, r.func, 'endpoint', 'reads from ' + show(v))
    for name in impls(ctx, cls, 'get_authn_header'):
        r = ctx.run(name, keep=lambda a: any(x == sym('authn_method') for x in a[1:]))
        some = False
        for o in r.returns if r else ():
            for s, v in r.get(o, r.value(o), 'Authorization'):
                if v is None:
                    ctx.ob('C25.read', known_ne(s.facts, sym('authn_method'), C('client_secret_basic'), r.eng), r.func, 'header',
                           'reads without authorization')
                    continue
                some = True
                ps = [strip(x) for x in parts(v)]
                ctx.ob('C25.read', ps == [C('Bearer '), it(reg, 'registration_access_token')], r.func, 'header',
                       'authorized with ' + show(v))
        ctx.ob('C25.read', some, name, 'header', 'reads without authorization')
