"""Provider metadata is only accepted from the issuer that was asked."""
from ..messages import kinds
from ..q import *
from ..terms import C, show

BASE = 'oidcrp.oauth2.provider_info_discovery.ProviderInfoDiscovery'
RESP = sym('resp')
ISS = at(CTX, 'issuer')
KEYS = ('load_keys', 'add_url', 'add_kb', 'import_jwks', 'import_jwks_as_json', 'import_jwks_from_file', 'add_symmetric',
        'add')


def mismatch_atom(a):
    return mentions(a, C('issuer_mismatch')) or mentions(a, C('issuer')) or a[0] == 'eq' and mentions(a, it(RESP, 'issuer'))


def accepted(r, facts):
    """None, or why metadata may be used under these facts"""
    if known_in(r, facts, 'issuer', RESP) is False:
        return 'no issuer in the metadata'
    for a, p in facts.items():
        x = [strip(y) for y in a[1:] if isinstance(y, tuple)]
        if a[0] == 'T' and p and x[0] == it(at(CTX, 'allow'), 'issuer_mismatch'):
            return 'a mismatch is allowed'
        if a[0] == 'eq' and p:
            for b, c in ((x[0], x[1]), (x[1], x[0])):
                d1 = mod_slash(b, it(RESP, 'issuer'), facts, r.eng)
                d2 = mod_slash(c, ISS, facts, r.eng)
                if d1 and d2 and all(abs(m - n) <= 1 for m in d1 for n in d2):
                    return 'the issuers are the same'
        if a[0] == 'in' and p and x[0] == it(RESP, 'issuer') and x[1][0] == 'tup':
            d = [mod_slash(y, ISS, facts, r.eng) for y in x[1][1]]
            if d and all(z and all(abs(n) <= 1 for n in z) for z in d):
                return 'the issuers are the same'
    return None


def check(ctx):
    ctx.rule('C07.kind', 'provider metadata is verified as such', 1)
    kinds(ctx, 'C07.kind', only=('ProviderInfoDiscovery',))
    accept(ctx)
    location(ctx)
    dynamic(ctx)


def accept(ctx):
    ctx.rule('C07.verified', 'nothing is changed, and nothing returned, unless the metadata names no issuer, names the issuer of '
             'the client give or take one slash, or a mismatch is explicitly allowed')
    ctx.rule('C07.mismatch', 'the mismatch is an exception')
    for name in impls(ctx, BASE, 'update_service_context'):
        r = ctx.run(name, keep=mismatch_atom, opaque={'match_preferences'})
        if r is None:
            continue
        for o in r.outs:
            for _, e, f in effects(o) + calls(o, *KEYS, 'match_preferences'):
                ctx.ob('C07.verified', accepted(r, f) is not None, r.func, '{} {}'.format(
                    e.name, show(e.recv) if e.recv else ''), 'done before the issuer was found to be right', line=e.line)
            if o.kind == 'return':
                ctx.ob('C07.verified', accepted(r, o.facts) is not None, r.func, 'return',
                       'accepted although the issuer was not found to be right')
        ctx.ob('C07.mismatch', any(o.kind == 'raise' and accepted(r, o.facts) is None for o in r.outs), r.func, 'raise',
               'no exception on a mismatch')


WELL_KNOWN = '/.well-known/openid-configuration'


def location(ctx):
    ctx.rule('C07.location', 'the metadata is requested from the well-known location below the issuer')
    for name in impls(ctx, BASE, 'get_endpoint'):
        r = ctx.run(name)
        for o in r.returns if r else ():
            ctx.ob('C07.location', below_issuer(r, o.state, r.value(o)), r.func, 'endpoint', 'location is ' + show(r.value(o)))
    for name in impls(ctx, BASE, 'get_request_parameters'):
        r = ctx.run(name)
        for o in r.returns if r else ():
            for s, u in r.get(o, r.value(o), 'url'):
                ok = u is not None and (is_call(u, 'get_endpoint') and recv(u) == SELF or below_issuer(r, s, u))
                ctx.ob('C07.location', ok, r.func, 'url', 'URL is ' + shows(u))


def below_issuer(r, st, v):
    if v[0] != 'cat' or not is_const(v[1][-1]):
        return False
    head = v[1][:-1]
    tail = v[1][-1][2]
    if tail != WELL_KNOWN or len(head) != 1:
        return False
    base = ISS
    if r.eng.decide(st, ('hasattr', CTX, 'issuer')) is False:
        base = at(SELF, 'endpoint')
    for b in (base, at(SELF, 'endpoint')) if base != ISS else (base,):
        d = mod_slash(head[0], b, st.facts, r.eng, rstrip=True)
        if d and all(x <= 0 for x in d):
            return True
    return False


def dynamic(ctx):
    ctx.rule('C07.dynamic', 'dynamic discovery asks the issuer of the client, which only the configuration may set')
    r = ctx.run('oidcrp.oauth2.dynamic_provider_info_discovery', types={sym('client'): 'oidcrp.oidc.RP'})
    if r is None:
        return
    cntx = context_of(sym('client'))
    for o in r.outs:
        for _, e, f in effects(o):
            if e.kind == 'setattr' and e.args[0] == C('issuer'):
                v = strip(e.args[1])
                ctx.ob('C07.dynamic', v == it(at(cntx, 'config'), 'srv_discovery_url'), r.func, 'issuer',
                       'issuer set to ' + show(v), line=e.line)
        dr = calls(o, 'do_request')
        if o.kind == 'return':
            ok = len(dr) == 1 and dr[0][1].recv == sym('client') and arg(dr[0][1], 'request_type', 0) == C('provider_info')
            ctx.ob('C07.dynamic', ok, r.func, 'do_request', 'no provider_info request is made')
