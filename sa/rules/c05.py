"""An ID Token is only accepted with the nonce of its own session."""
from ..messages import kinds
from ..q import *
from ..terms import C, show

AUTHZ = 'oidcrp.oidc.authorization.Authorization.'
TOKEN = 'oidcrp.oidc.access_token.AccessToken.'
VID = '__verified_id_token'


def nonce_atom(a):
    return mentions(a, C(VID)) or mentions(a, C('nonce'))


def no_value(r, s, t):
    """the value is known to be missing, None or empty"""
    t = strip(t)
    if r.eng.decide(s, ('T', t)) is False:
        return True
    return t[0] == 'item' and r.eng.decide(s, ('in', t[2], t[1])) is False


def check(ctx):
    ctx.rule('C05.kind', 'responses that have ID Tokens are verified as such', 1)
    kinds(ctx, 'C05.kind', only=('oidc.authorization.Authorization', 'oidc.access_token.AccessToken', 'oidc.refresh_access_token.RefreshAccessToken'))
    authorization(ctx)
    token(ctx)
    ctx.rule('C05.used', 'an authorization response is used only after the service has accepted it', 3)
    answered(ctx, 'C05.used')


def authorization(ctx):
    ctx.rule('C05.authz', 'a response with a verified ID Token is returned only when the nonce of the authorization request '
             'stored for its session is the nonce in the ID Token, or that request had none')
    r = ctx.run(AUTHZ + 'post_parse_response', keep=nonce_atom)
    if r is None:
        return
    resp = sym('response')
    for o in r.returns:
        v = base_of(r.value(o))
        ctx.ob('C05.authz', v == resp, r.func, 'result', 'returns ' + show(v))
        idt = it(resp, VID)
        if no_value(r, o.state, idt):
            continue
        ok = False
        for a, p in o.facts.items():
            x = [strip(y) for y in a[1:] if isinstance(y, tuple)]
            if a[0] == 'eq' and p:
                for b, c in ((x[0], x[1]), (x[1], x[0])):
                    if c == it(idt, 'nonce') and request_nonce(b, resp):
                        ok = True
            elif a[0] in ('T', 'in') and not p:
                y = x[0] if a[0] == 'T' else ('item', x[1], x[0])
                if request_nonce(y, resp):
                    ok = True
            elif a[0] == 'none' and p and request_nonce(x[0], resp):
                ok = True
        ctx.ob('C05.authz', ok, r.func, 'nonce', 'an ID Token is accepted without its nonce being that of the request')


def request_nonce(t, resp):
    """nonce of the request stored for the session the response names"""
    if t[0] != 'item' or t[2] != C('nonce'):
        return False
    s = sess(t[1])
    return bool(s) and s[0] == STORE and s[2] == 'auth_request' and strip(s[1]) == it(resp, 'state')


def token(ctx):
    ctx.rule('C05.token', 'a token response with a verified ID Token changes what is stored only when the nonce in the ID Token '
             'was issued for the session the token was requested for')
    r = ctx.run(TOKEN + 'update_service_context', keep=nonce_atom)
    if r is None:
        return
    resp, key = sym('resp'), sym('key')
    idt = it(resp, VID)

    def good(s, facts):
        if facts.get(r.eng.norm_atom(('in', C(VID), resp))) is False or facts.get(r.eng.norm_atom(('T', idt))) is False \
                or facts.get(r.eng.norm_atom(('none', idt))) is True:
            return True
        for a, p in facts.items():
            if a[0] == 'eq' and p:
                x = [strip(y) for y in a[1:]]
                for b, c in ((x[0], x[1]), (x[1], x[0])):
                    if c == key and is_call(b, 'get_state_by_nonce') and recv(b) == STORE and \
                            strip(callarg(b, 'nonce', 0)) == it(idt, 'nonce'):
                        return True
        return False
    for o in r.outs:
        for _, e, f in effects(o):
            ctx.ob('C05.token', good(o.state, f), r.func, e.name,
                   'changed although the nonce was not found to be that of the session', line=e.line)
        if o.kind == 'return':
            ctx.ob('C05.token', good(o.state, o.facts), r.func, 'result',
                   'accepted although the nonce was not found to be that of the session')
