"""A token request only redeems what its own session was given."""
from ..messages import kinds, ways
from ..q import *
from ..terms import C, show
from .c15 import session_key

RPH = 'oidcrp.rp_handler.RPHandler.'
RA = sym('request_args')
PROBES = ('redirect_uri', 'client_id', 'client_secret', 'grant_type', 'scope', 'code_verifier', 'state', 'resource')
NEVER = 'auth_response'


def check(ctx):
    ctx.rule('C24.way', 'token requests are posted to the token endpoint', 1)
    ways(ctx, 'C24.way', ('endpoint_name', 'http_method', 'request_body_type', 'default_authn_method'), only=('AccessToken',))
    ctx.rule('C24.kind', 'a token request is made as one', 1)
    kinds(ctx, 'C24.kind', 'msg_type', only=('AccessToken',))
    ctx.rule('C24.request', "what is redeemed is the session's own code, for its own redirect URI, by this client", 5)
    ctx.rule('C24.code', 'the code in a token request is the one given or the one received in the session', 2)
    ctx.rule('C24.others', 'nothing but the code is taken from an authorization response', 4)
    ctx.rule('C24.given', 'what the caller gave is kept', 2)
    ctx.rule('C24.refresh', 'the refresh token is the one given or one stored for the session', 2)
    handler(ctx)
    preconstruct(ctx)


def from_item(t, typ):
    """a record of the session of the handler's state argument"""
    return is_call(t, 'get_item') and strip(callarg(t, 'item_type', 1)) == C(typ) and is_store(recv(t)) and \
        strip(callarg(t, 'key', 2)) == sym('state')


def handler(ctx):
    r = ctx.run(RPH + 'get_tokens', transparent={'get_client_id'})
    for o in r.outs if r else ():
        for _, e, f in calls(o, 'do_request'):
            srv = arg(e, 'request_type', 0)
            cl = strip(e.recv)
            ok = cl == sym('client') or is_call(cl, 'get_client_from_session_key') and callarg(cl, 'state', 0) == sym('state')
            ctx.ob('C24.request', ok, r.func, 'client', 'the client used is ' + show(cl), e.line)
            ctx.ob('C24.request', srv is not None and strip(srv) == C('accesstoken'), r.func, 'service', 'uses ' + shows(srv), e.line)
            st = [v for _, v in kwval(e, 'state', r.eng, o.state)]
            ctx.ob('C24.request', st == [sym('state')], r.func, 'state', 'state is {}'.format([shows(x) for x in st]), e.line)
            for s, ra in kwval(e, 'request_args', r.eng, o.state):
                if not ctx.ob('C24.request', ra is not None, r.func, 'request_args', 'no request arguments', e.line):
                    continue
                want = {'code': lambda t: t[0] == 'item' and t[2] == C('code') and from_item(t[1], NEVER),
                        'redirect_uri': lambda t: t[0] == 'item' and t[2] == C('redirect_uri') and from_item(t[1], 'auth_request'),
                        'grant_type': lambda t: t == C('authorization_code'),
                        'client_id': lambda t: client_id(t, cl)}
                for k, good in want.items():
                    for _, v in r.get(s, ra, k):
                        ctx.ob('C24.request', v is not None and good(v), r.func, k, '{} is {}'.format(k, shows(v)), e.line)
                for _, v in r.get(s, ra, 'state'):
                    ctx.ob('C24.request', v is None or v == sym('state'), r.func, 'state', 'state is ' + shows(v), e.line)
                for k in PROBES:
                    for _, v in r.get(s, ra, k):
                        bad = v is not None and contains(v, lambda x: is_call(x, 'get_item') and
                                                         strip(callarg(x, 'item_type', 1)) == C(NEVER))
                        ctx.ob('C24.others', not bad, r.func, k, '{} is {}'.format(k, shows(v)), e.line)
    r = ctx.run(RPH + 'refresh_access_token')
    for o in r.outs if r else ():
        for _, e, f in calls(o, 'do_request'):
            cl = strip(e.recv)
            ok = cl == sym('client') or is_call(cl, 'get_client_from_session_key') and callarg(cl, 'state', 0) == sym('state')
            ctx.ob('C24.refresh', ok, r.func, 'client', 'the client used is ' + show(cl), e.line)
            st = [v for _, v in kwval(e, 'state', r.eng, o.state)]
            ctx.ob('C24.refresh', st == [sym('state')], r.func, 'state', 'state is {}'.format([shows(x) for x in st]), e.line)
            for s, ra in kwval(e, 'request_args', r.eng, o.state):
                for k in ('refresh_token', 'state') if ra is not None else ():
                    for s2, v in r.get(s, ra, k):
                        ok = v is None or k == 'state' and v == sym('state') or origin(r, s2, v, k) <= TOKENS
                        ctx.ob('C24.refresh', ok, r.func, k, '{} is {}'.format(k, shows(v)), e.line)


def client_id(t, cl):
    t = strip(t)
    return is_call(t, 'get_client_id') and strip(recv(t)) == cl or t in (at(context_of(cl), 'client_id'), at(cl, '_client_id'), at(cl, 'client_id')) \
        or t[0] == 'attr' and t[2] == 'client_id' and mentions(t, cl)


TOKENS = {'token_response', 'refresh_token_response', None}


def origin(r, s, v, key):
    """where a value comes from: item types of the session, 'request', None when there is none, or '?'"""
    if v is None:
        return {None}
    v = strip(v)
    if v == ('item', RA, C(key)):
        return {'request'}
    if is_const(v):
        return {'constant'}
    if v[0] == 'item' and is_call(v[1], 'extend_request_args', 'multiple_extend_request_args'):
        c = v[1]
        if not is_store(recv(c)):
            return {'?'}
        single = is_call(c, 'extend_request_args')
        k = strip(callarg(c, 'key', 3 if single else 1))
        par = elements(callarg(c, 'parameters', 4 if single else 2, C(None)))
        typ = callarg(c, 'item_type', 2) if single else callarg(c, 'item_types', 3)
        typ = [strip(typ)] if single else elements(typ)
        res = set()
        args = callarg(c, 'args', 0, C(None))
        for _, x in r.get(s, args, key):
            res |= origin(r, s, x, key)
        if par is None or C(key) in par:
            if not session_key(k):
                res.add('?')
            res |= set(t[2] if is_const(t) else '?' for t in typ or [('x',)])
        return res
    ss = sess(v[1]) if v[0] == 'item' else None
    if ss:
        return {ss[2] if session_key(ss[1]) else '?'}
    return {'?'}


def preconstruct(ctx):
    done = set()
    for cls in ctx.prog.subclasses('oidcrp.service.Service') + [ctx.prog.cls('oidcrp.service.Service')]:
        name = class_const(ctx, cls, 'service_name')
        if name not in ('accesstoken', 'refresh_token'):
            continue
        for meth in ('oauth_pre_construct', 'cc_pre_construct', 'oidc_pre_construct'):
            m = ctx.prog.find_method(cls, meth)
            if m is None or m.dotted in done:
                continue
            done.add(m.dotted)
            r = ctx.run(m.dotted, keep=lambda a: a[0] == 'in' and a[1] == C('grant_type'))
            for o in r.returns if r else ():
                v = strip(r.value(o))
                ra = v[1][0] if v[0] == 'tup' and v[1] else v
                grant = 'code' if meth == 'oauth_pre_construct' and name == 'accesstoken' else None
                for k in PROBES + ('code', 'refresh_token'):
                    for s, x in r.get(o, ra, k):
                        src = origin(r, s, x, k)
                        if k == 'code' and grant:
                            ctx.ob('C24.code', src <= {'request', NEVER, None} or src <= {'request', NEVER, 'auth_request', None},
                                   r.func, k, 'the code is from {}: {}'.format(src, shows(x)))
                        else:
                            ctx.ob('C24.others', NEVER not in src and '?' not in src, r.func, k, '{} is from {}'.format(k, src))
                        if k == 'refresh_token' and name == 'refresh_token':
                            ctx.ob('C24.refresh', src <= TOKENS | {'request'}, r.func, k, 'the refresh token is from {}'.format(src))
                        have = known_in(r, s.facts, k, RA)
                        if have is True:
                            ctx.ob('C24.given', src == {'request'}, r.func, k, '{} given is replaced by {}'.format(k, shows(x)))
                if grant:
                    codes = set()
                    for s, x in r.get(o, ra, 'code'):
                        codes |= origin(r, s, x, 'code')
                    ctx.ob('C24.code', NEVER in codes, r.func, 'code', 'the code of the session is not used')
                    for s, x in r.get(o, ra, 'grant_type'):
                        ok = x is not None and (x == C('authorization_code') or origin(r, s, x, 'grant_type') <= {'request', 'auth_request', None})
                        ctx.ob('C24.code', ok, r.func, 'grant_type', 'grant_type is ' + shows(x))
