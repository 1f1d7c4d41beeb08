"""A back-channel logout is only honoured when verified for this client."""
from ..q import *
from ..terms import C

NAME = 'oidcrp.rp_handler.backchannel_logout'
CL = sym('client')
CX = context_of(CL)
V = '__verified_logout_token'
BY = {'get_state_by_sid': 'sid', 'get_state_by_sub': 'sub'}
ARGS = {'aud': (at(CX, 'client_id'),), 'iss': (at(CX, 'issuer'),), 'keyjar': (at(CX, 'keyjar'),)}


def atoms(a):
    return contains(('x',) + a, lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == 'item' and t[2] == C(V)) or \
        contains(('x',) + a, lambda t: t == C('id_token_signed_response_alg')) or \
        contains(('x',) + a, lambda t: t == at(CX, 'registration_response'))


def check(ctx):
    ctx.rule('C20.verified', 'a session is looked for only after the request was verified')
    ctx.rule('C20.args', 'the logout token is verified for this client, its provider, its keys and its algorithm', 4)
    ctx.rule('C20.failed', 'a failed verification is an exception')
    ctx.rule('C20.source', 'the session is found from the verified token of that request', 2)
    ctx.rule('C20.order', 'the session id takes precedence over the subject')
    ctx.rule('C20.result', 'what is returned is the session that was found')
    ctx.rule('C20.type', 'what is verified is a back-channel logout request')
    ctx.rule('C20.mapped', 'a subject and a session id lead to the session they were received in', 4)
    mapped(ctx, 'C20.mapped')
    noted(ctx)
    names = set(BY) | {'verify'}
    r = ctx.run(NAME, keep=atoms, throws=names, watch=lambda e: e.kind in ('call', 'threw'))
    if r is None:
        return
    for o in r.outs:
        look = calls(o, *BY)
        ver = [(i, e) for i, e, _ in calls(o, 'verify')]
        for i, e, f in look:
            x = strip(arg(e, BY[e.name], 0, C(None)))
            ok = x[0] == 'item' and x[2] == C(BY[e.name]) and x[1][0] == 'item' and x[1][2] == C(V)
            ctx.ob('C20.source', ok and strip(e.recv) == store_of(CL), r.func, e.name, 'looks for ' + shows(x), e.line)
            req = x[1][1] if ok else None
            mine = [j for j, v in ver if j < i and (req is None or same(r, o, v, req))]
            ctx.ob('C20.verified', bool(mine), r.func, e.name, 'the request is not verified', e.line)
            if e.name == 'get_state_by_sub':
                sid = ('item', x[1], C('sid')) if ok else None
                before = [j for j, _, _ in look if j < i and o.trace[j][0].name == 'get_state_by_sid']
                none = ok and (truthy(f, r.eng, sid) is False or known_in(r, f, 'sid', x[1]) is False)
                ctx.ob('C20.order', bool(before) or none, r.func, 'sid', 'the session id is not tried first', e.line)
        for e in [e for _, e in ver]:
            verify_args(ctx, r, o, e)
        if o.kind != 'return':
            continue
        ctx.ob('C20.failed', not any(e.name == 'verify' for _, e, _ in events(o, 'threw')), r.func, 'verify',
               'a failed verification is ignored')
        v = r.value(o)
        ok = is_call(v, *BY) and any(strip(e.res) == v for _, e, _ in look)
        ctx.ob('C20.result', ok, r.func, 'return', 'returns ' + shows(v))
        ctx.ob('C20.verified', bool(ver), r.func, 'return', 'the request is not verified')


def same(r, o, ev, req):
    """the object verified is the one the token is taken from"""
    res = strip(r.eng.freeze(o.state, ev.res))
    return req in (strip(ev.recv), ('after', ev.res), ('after', res))


def verify_args(ctx, r, o, e):
    reg = at(CX, 'registration_response')
    for n, wanted in ARGS.items():
        for s, x in kwval(e, n, r.eng, o.state):
            ctx.ob('C20.args', x in wanted, r.func, n, '{} is {}'.format(n, shows(x)), e.line)
    for s, x in kwval(e, 'allowed_sign_alg', r.eng, o.state):
        k = 'id_token_signed_response_alg'
        have = known_in(r, s.facts, k, reg)
        none = truthy(s.facts, r.eng, reg) is False or truthy(s.facts, r.eng, it(reg, k)) is False
        ok = x == it(reg, k) if have and not none else x in (C('RS256'), it(reg, k)) and (have is False or none)
        ctx.ob('C20.args', ok, r.func, 'allowed_sign_alg', 'allowed_sign_alg is ' + shows(x), e.line)
    names = set()
    for n, v in e.kw:
        if n == '**':
            ks, other = keys_of(strip(v))
            names |= ks
            if other:
                names.add('?')
        else:
            names.add(n)
    more = names - set(ARGS) - {'allowed_sign_alg', 'skew'}
    ctx.ob('C20.args', not more, r.func, 'arguments', 'also verified with {}'.format(sorted(more)), e.line)
    cls = strip(r.eng.freeze(o.state, e.recv))
    ctx.ob('C20.type', contains(cls, lambda t: isinstance(t, str) and t.endswith('.BackChannelLogoutRequest')) or
           'BackChannelLogoutRequest' in repr(cls), r.func, 'type', 'verifies ' + shows(cls), e.line)


def noted(ctx):
    """what a logout token may name a session by is noted when the session is complete"""
    ctx.rule('C20.noted', 'the subject, and the session id where the provider supports it, lead to a session from the time it is complete', 6)
    client = sym('the client')
    for info in ('backchannel_logout_session_supported', 'frontchannel_logout_session_supported', None):
        for idt in ({'sub': 'the sub', 'sid': 'the sid'}, {'sub': 'the sub'}, None):
            for user in (True, False):
                given = {('attr', SELF, 'issuer2rp'): dct({'the issuer': client}), ('attr', client, '_service'): dct({'userinfo': C('the service')} if user else {}),
                         ('attr', context_of(client), 'provider_info'): dct({info: True} if info else {'issuer': 'the issuer'})}
                r = ctx.run('oidcrp.rp_handler.RPHandler.finalize', args={'issuer': C('the issuer')}, types={client: 'oidcrp.oidc.RP'}, keep=lambda a: False, given=given,
                            results={'finalize_auth': dct({'state': 'the state'}), 'get_user_info': dct({'sub': 'the sub'}), 'userinfo_in_id_token': dct({'sub': 'the sub'}),
                                     'get_access_and_id_token': dct({'access_token': 'the token', 'id_token': dct(idt) if idt else C(None)})})
                for o in r.returns if r else ():
                    got = {e.name: [strip(arg(e, n, 0, C(None))), strip(arg(e, 'state', 1, C(None)))] for _, e, _ in calls(o, 'store_sub2state', 'store_sid2state')
                           for n in ('sub' if e.name == 'store_sub2state' else 'sid',)}
                    want = {}
                    if idt or user:
                        want['store_sub2state'] = [C('the sub'), C('the state')]
                    if idt and info and 'sid' in idt:
                        want['store_sid2state'] = [C('the sid'), C('the state')]
                    for k, v in want.items():
                        ctx.ob('C20.noted', got.get(k) == v, r.func, k, 'with an ID Token of {} and {} the session is noted under {}'.format(
                            sorted(idt or ()), info, [show(x) for x in got.get(k, ())]))
