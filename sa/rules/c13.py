"""Client assertions identify this client to this provider only."""
from ..q import *
from ..terms import C, show

M = 'oidcrp.client_auth.'
SRV = sym('service')
SCTX = context_of(('owner', SRV))
TESA = 'token_endpoint_auth_signing_alg'
REG = it(at(SCTX, 'registration_response'), TESA)
PREF = it(at(SCTX, 'client_preferences'), TESA)
PI = at(SCTX, 'provider_info')
EP = it(KW, 'authn_endpoint')
NOW = ('utc_time_sans_frac', 'time', 'timestamp')


def check(ctx):
    claims(ctx)
    named_key(ctx)
    for cls, hs in (('ClientSecretJWT', True), ('PrivateKeyJWT', False)):
        for name in impls(ctx, M + cls, '_construct_client_assertion'):
            assertion(ctx, name, hs)


def claims(ctx):
    ctx.rule('C13.claims', 'issuer and subject are the client id given, the audience the one given, identifier fresh, issue '
             'time now, expiry now plus lifetime, and the token is signed with the keys and algorithm given')
    r = ctx.run(M + 'assertion_jwt')
    for o in r.returns if r else ():
        v = r.value(o)
        if not ctx.ob('C13.claims', is_call(v, 'to_jwt'), r.func, 'to_jwt', 'returns ' + show(v)):
            continue
        ctx.ob('C13.claims', strip(callarg(v, 'key', 0) or C(None)) == sym('keys'), r.func, 'key', 'signed with ' + show(v))
        ctx.ob('C13.claims', strip(callarg(v, 'algorithm', 1) or C(None)) == sym('algorithm'), r.func, 'algorithm',
               'signed with ' + show(v))
        tok = recv(v)
        for name, want in (('iss', 'client_id'), ('sub', 'client_id'), ('aud', 'audience')):
            for s, x in r.get(o, tok, name):
                ok = x == sym(want) or x is not None and x[0] == 'obj' and name == 'aud' and \
                    [strip(op[1]) for op in all_ops(x)] == [sym(want)]
                ctx.ob('C13.claims', ok, r.func, name, '{} is {}'.format(name, shows(x)))
        for s, iat in r.get(o, tok, 'iat'):
            ctx.ob('C13.claims', is_now(iat), r.func, 'iat', 'iat is ' + shows(iat))
            for s2, exp in r.get(s, tok, 'exp'):
                ok = exp is not None and exp[0] == 'op' and exp[1] == 'Add' and \
                    any(is_now(strip(x)) for x in exp[2]) and any(strip(x) == sym('lifetime') for x in exp[2])
                ctx.ob('C13.claims', ok, r.func, 'exp', 'exp is ' + shows(exp))
        for s, jti in r.get(o, tok, 'jti'):
            ok = jti is not None and contains(jti, lambda t: t[0] == 'call' and len(t) > 4 and callname(t) in (
                'rndstr', 'unreserved', 'token_urlsafe', 'token_hex', 'uuid4'))
            ctx.ob('C13.claims', ok, r.func, 'jti', 'jti is ' + shows(jti))


def is_now(t):
    if t is not None and is_call(t, 'int', 'float'):
        t = strip(t[2][0])
    return t is not None and is_call(t, *NOW) and not t[2]


def absent(r, facts, item):
    """a setting is known not to be there"""
    return truthy(facts, r.eng, item) is False or truthy(facts, r.eng, item[1]) is False or \
        facts.get(r.eng.norm_atom(('none', item))) is True or known_in(r, facts, item[2][2], item[1]) is False


def relevant(a):
    t = ('x',) + a
    return contains(t, lambda x: x in (C(TESA), C('algorithm'), EP, C('authn_endpoint'),
                                       at(SCTX, 'registration_response')) or is_const(x) and isinstance(x[2], str)
                    and x[2].startswith(TESA)) and not contains(t, lambda x: is_call(x))


def key_ok(r, facts, keys, alg):
    """the signing keys are the client's own and fit the algorithm"""
    kt = [t for t in walk(('x', keys)) if isinstance(t, tuple)]
    if is_call(keys, 'get_signing_key'):
        jar = recv(keys) == at(SCTX, 'keyjar')
        own = strip(callarg(keys, 'issuer_id', 1) or C('')) in (C(''), at(SCTX, 'client_id'))
        fits = any(is_call(strip(x), 'alg2keytype') and mentions(x, alg) for x in keys[2][:1]) or \
            any(n == 'key_type' and mentions(x, alg) for n, x in keys[3])
        return jar and own and fits and truthy(facts, r.eng, keys) is True
    src = [t for t in kt if is_call(t, 'get_issuer_keys')]
    if src and all(recv(t) == at(SCTX, 'keyjar') and strip(callarg(t, 'issuer_id', 0) or C('')) in
                   (C(''), at(SCTX, 'client_id')) for t in src):
        # a key picked by its id: its type has to be that of the algorithm
        return any(a[0] == 'eq' and p and contains(('x',) + a, lambda t: t[0] == 'attr' and t[2] == 'kty'
                                                   and mentions(t, src[0]))
                   and contains(('x',) + a, lambda t: is_call(t, 'alg2keytype') and mentions(t, alg))
                   for a, p in facts.items())
    return False


def assertion(ctx, name, hs):
    ctx.rule('C13.client', 'the assertion names the client itself')
    ctx.rule('C13.audience', 'the audience is the token endpoint for requests there and the issuer otherwise')
    ctx.rule('C13.keys', "the keys are the client's own, fit the algorithm, and there is at least one")
    ctx.rule('C13.algorithm', 'the algorithm is registered, else preferred, else supported by the provider, else given or '
             'the default of the method')
    ctx.rule('C13.default', 'the default algorithm suits the method')
    ctx.rule('C13.lifetime', 'the lifetime is the one asked for')
    ctx.rule('C13.nokey', 'without a key there is an exception')
    r = ctx.run(name, opaque={'assertion_jwt'}, keep=relevant)
    if r is None:
        return
    seen = False
    for o in r.returns:
        for _, e, f in calls(o, 'assertion_jwt'):
            seen = True
            cid = strip(arg(e, 'client_id', 0))
            ctx.ob('C13.client', cid == at(SCTX, 'client_id') or is_call(cid, 'get_client_id'), r.func, 'client_id',
                   'client id is ' + show(cid), e.line)
            aud = strip(arg(e, 'audience', 2))
            here = known_eq(f, EP, C('token_endpoint'), r.eng)
            elsewhere = known_ne(f, EP, C('token_endpoint'), r.eng) or known_in(r, f, 'authn_endpoint', KW) is False
            want = {it(PI, 'token_endpoint')} if here else {it(PI, 'issuer'), at(SCTX, 'issuer')} if elsewhere else set()
            ctx.ob('C13.audience', aud in want, r.func, 'audience', 'audience is {} ({})'.format(
                show(aud), 'token endpoint' if here else 'elsewhere' if elsewhere else 'unknown endpoint'), e.line)
            alg = strip(arg(e, 'algorithm', 3))
            keys = strip(arg(e, 'keys', 1))
            ctx.ob('C13.keys', key_ok(r, f, keys, alg), r.func, 'keys', 'keys are {} for {}'.format(show(keys), show(alg)),
                   e.line)
            chosen(ctx, r, f, alg, here, hs, e)
            life = arg(e, 'lifetime', 4)
            for s, x in kwval(e, 'lifetime', r.eng, o.state) if life is None else [(o.state, strip(life))]:
                given = known_in(r, s.facts, 'lifetime', KW)
                ok = x == it(KW, 'lifetime') or x is None and given is not True
                ctx.ob('C13.lifetime', ok, r.func, 'lifetime', 'lifetime is ' + shows(x), e.line)
        ctx.ob('C13.client', is_call(r.value(o), 'assertion_jwt'), r.func, 'result', 'returns ' + shows(r.value(o)))
    ctx.ob('C13.client', seen, r.func, 'assertion_jwt', 'no assertion is made')
    nokey = [o for o in r.raises if any(a[0] == 'T' and not p and is_call(a[1], 'get_signing_key') or
                                        a[0] == 'T' and not p and contains(a[1], lambda t: is_call(t, 'get_issuer_keys'))
                                        for a, p in o.facts.items())]
    ctx.ob('C13.nokey', bool(nokey), r.func, 'raise', 'no exception when there is no key')


def chosen(ctx, r, f, alg, here, hs, e):
    def higher(*items):
        return all(absent(r, f, i) for i in items)
    if alg == REG:
        ok = here
    elif alg == PREF:
        ok = here and higher(REG)
    elif alg[0] in ('elem', 'each') or alg[0] == 'item' and alg[1][0] == 'item' and str(alg[1][2][2]).startswith(TESA):
        ok = here and higher(REG, PREF) and contains(alg, lambda t: t == it(PI, TESA + '_values_supported')) and \
            any(a[0] == 'in' and p and strip(a[1]) == alg for a, p in f.items())
    elif alg == it(KW, 'algorithm'):
        ok = not here or absent(r, f, REG)
    elif is_const(alg):
        ok = not here or absent(r, f, REG)
        ctx.ob('C13.default', isinstance(alg[2], str) and alg[2][:2] in (('HS',) if hs else ('RS', 'ES', 'PS')) or
               alg == C('RS256') and here, r.func, 'default', 'default is ' + show(alg), e.line)
        if ok and not here:
            ok = known_in(r, f, 'algorithm', KW) is False
    else:
        ok = False
    ctx.ob('C13.algorithm', ok, r.func, 'algorithm', 'algorithm is {} {}'.format(show(alg), 'at the token endpoint' if here else
                                                                            'elsewhere'), e.line)


def named_key(ctx):
    """a key asked for by its identifier"""
    ctx.rule('C13.kid', 'a key asked for by an identifier is the own key with exactly that identifier, of the type the algorithm needs, or there is an error', 6)
    keys = {k: sym('key ' + k) for k in ('ab', 'a', 'xa', 'ec')}
    given = {}
    for k, x in keys.items():
        given[('attr', x, 'kid')] = C(k)
        given[('attr', x, 'kty')] = C('EC' if k == 'ec' else 'RSA')
    for cls in ctx.prog.subclasses(M + 'JWSAuthnMethod'):
        for m in ('_get_key_by_kid', '_get_signing_key'):
            f = ctx.prog.find_method(cls, m)
            if f is None:
                continue
            for kid, want in (('a', 'a'), ('ab', 'ab'), ('xa', 'xa'), ('ec', None), ('b', None), ('A', None)):
                names = [p.arg for p in f.node.args.args]
                cx = sym('service_context' if 'service_context' in names else 'context')
                r = ctx.run(f.dotted, args={'kid': C(kid)}, results={'get_issuer_keys': lst(*keys.values()), 'alg2keytype': C('RSA')}, transparent={'_get_key_by_kid'},
                            types={cx: 'oidcrp.service_context.ServiceContext'}, given=given, keep=lambda a: False)
                if r:
                    ctx.ob('C13.kid', bool(r.returns) == (want is not None), r.func, kid, 'the key {} is {}found'.format(kid, '' if r.returns else 'not '))
                for o in r.returns if r else ():
                    v = strip(r.value(o))
                    got = [strip(x) for x in elements(v)] if v[0] in ('obj', 'tup') else [v]
                    ctx.ob('C13.kid', want is not None and got == [keys[want]], r.func, kid, 'for {} the key is {}'.format(kid, [show(x) for x in got]))
                    for _, e, _ in calls(o, 'get_issuer_keys'):
                        ctx.ob('C13.kid', strip(arg(e, 'issuer_id', 0, C(''))) == C(''), r.func, 'owner', 'the key is not one of the client', e.line)
