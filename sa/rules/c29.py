"""Pushed authorization requests: everything is pushed, and only success replaces the request."""
from ..q import *
from ..terms import C, contains, is_const, show

MOD = 'oidcrp.oauth2.add_on.pushed_authorization.'
X = at(('owner', sym('service')), '_service_context')
URL = it(at(X, 'provider_info'), 'pushed_authorization_request_endpoint')
REQUIRED = ('client_id', 'response_type')
WHOLE = {'client_id': sym('the id'), 'response_type': sym('the type'), 'scope': sym('the scope'), 'state': sym('the state'),
         'nonce': sym('the nonce')}
CLIENT = sym('the http client')
FAILURES = (100, 302, 400, 401, 404, 413, 429, 500, 503)


def check(ctx):
    ctx.rule('C29.whole', 'the whole request is pushed, as is or as a signed object', 8)
    ctx.rule('C29.signed', "an object is signed with the client's keys and the algorithm configured", 4)
    ctx.rule('C29.endpoint', "it is sent to the provider's endpoint for pushed requests", 8)
    ctx.rule('C29.success', 'only success replaces the request', 4)
    ctx.rule('C29.reference', 'the request is then the reference returned plus, when lax, the required parameters', 8)
    ctx.rule('C29.unchanged', 'otherwise the request is used as it is', 8)
    ctx.rule('C29.placed', 'authorization requests are pushed', 4)
    for body in ('urlencoded', 'jws'):
        for merge in ('strict', 'lax'):
            for client in (C(None), CLIENT):
                pushed(ctx, body, merge, client)
    placed(ctx)


def pushed(ctx, body, merge, client):
    name = MOD + 'push_authorization'
    conf = dct({'body_format': body, 'signing_algorithm': sym('the algorithm'), 'http_client': client, 'merge_rule': merge})
    r = ctx.run(name, args={'request_args': dct(WHOLE)}, given={('attr', X, 'add_on'): dct({'pushed_authorization': conf})},
                results={'required_parameters': lst(*REQUIRED)}, keep=lambda a: any(involves(x, 'http', 'get', 'post') for x in a[1:]))
    for o in r.outs if r else ():
        how = '{}, {}'.format(body, merge)
        sent = [(i, e, f) for i, e, f in events(o, 'call') if
                e.name in ('http', 'get', 'post', 'request') and strip(e.recv or C(0)) in (('owner', sym('service')), CLIENT)]
        if o.kind != 'return' or truthy(o.facts, r.eng, CLIENT) is False:
            continue
        if not ctx.ob('C29.endpoint', len(sent) == 1, name, how, 'sent {} times'.format(len(sent))):
            continue
        i, e, f = sent[0]
        ctx.ob('C29.endpoint', strip(e.recv) == (('owner', sym('service')) if client == C(None) else CLIENT), name, how,
               'sent with ' + shows(e.recv)[:60])
        ctx.ob('C29.endpoint', strip(arg(e, 'url', 0, C(None))) == URL, name, how, 'sent to ' + shows(arg(e, 'url', 0))[:80], e.line)
        data(ctx, r, o, arg(e, 'data'), body, merge, name, how)
        answer(ctx, r, o, e, merge, name, how)


def same(r, o, cont, want):
    """the container has exactly these items"""
    cont = strip(cont)
    while is_call(cont, 'to_dict', 'dict') or cont[0] == 'deep':
        cont = recv(cont) if callname(cont) == 'to_dict' else cont[2][0]
    keys, other = keys_of(cont)
    if other or keys != set(want):
        return False
    return all(v is not None and strip(v) == x for k, x in want.items() for _, v in r.get(o, cont, k))


def data(ctx, r, o, sent, body, merge, name, how):
    if not ctx.ob('C29.whole', is_call(strip(sent or C(0)), 'to_urlencoded', 'urlencode'), name, how, 'sends ' + shows(sent)[:80]):
        return
    sent = strip(sent)
    msg = recv(sent) if callname(sent) == 'to_urlencoded' else sent[2][0]
    if body == 'urlencoded':
        ctx.ob('C29.whole', same(r, o, msg, WHOLE), name, how, 'sends only ' + shows(msg)[:120])
        return
    for _, v in r.get(o, msg, 'request'):
        v = strip(v) if v is not None else None
        if not ctx.ob('C29.whole', is_call(v, 'pack', 'to_jwt', 'sign_compact'), name, how, 'the request object is ' + shows(v)[:80]):
            continue
        content = v[2][0] if v[2] else callarg(v, 'payload')
        ctx.ob('C29.whole', content is not None and same(r, o, content, WHOLE), name, how, 'the object has ' + shows(content)[:120])
        j = recv(v)
        if is_call(j, 'JWT'):
            ctx.ob('C29.signed', strip(callarg(j, 'key_jar', 0, C(None))) == at(X, 'keyjar'), name, how,
                   'signed with ' + shows(callarg(j, 'key_jar', 0)))
            ctx.ob('C29.signed', strip(callarg(j, 'sign_alg', 3, C(None))) == sym('the algorithm'), name, how,
                   'the algorithm is ' + shows(callarg(j, 'sign_alg', 3)))
            ctx.ob('C29.signed', strip(callarg(j, 'sign', 4, C(True))) == C(True), name, how, 'it is not signed')
        else:
            ctx.unclear('the object is made with ' + shows(j)[:60])
    if merge == 'lax':
        for k in REQUIRED:
            for _, v in r.get(o, msg, k):
                ctx.ob('C29.whole', v is not None and strip(v) == WHOLE[k], name, how, '{} is {} beside the object'.format(k, shows(v)))


def answer(ctx, r, o, e, merge, name, how):
    resp = strip(e.res)
    status = ('attr', resp, 'status_code')
    v = r.value(o)
    if same(r, o, v, WHOLE):
        for n in (200, 201):
            ctx.ob('C29.unchanged', not admits(o.facts, status, n), name, how, 'the request is not replaced after status {}'.format(n))
        return
    bad = [n for n in FAILURES if admits(o.facts, status, n)]
    ctx.ob('C29.success', not bad, name, how, 'the request is replaced after status {}'.format(bad[:1]))
    uris = [strip(x) if x is not None else None for _, x in r.get(o, v, 'request_uri')]
    for u in uris or [None]:
        ok = u is not None and (u[0] == 'item' and u[2] == C('request_uri') or is_call(u, 'get') and u[2][:1] == (C('request_uri'),)) and \
            contains(u, lambda x: x in (at(resp, 'text'), at(resp, 'content')) or is_call(x, 'json') and recv(x) == resp)
        ctx.ob('C29.reference', ok, name, how, 'the reference is ' + shows(u)[:80])
    keys, other = keys_of(strip(v))
    want = {'request_uri'} | (set(REQUIRED) if merge == 'lax' else set())
    ctx.ob('C29.reference', keys == want and not other, name, how, 'the request consists of {}'.format(sorted(map(str, keys)) + other[:1]))
    if merge == 'lax':
        for k in REQUIRED:
            for _, x in r.get(o, v, k):
                ctx.ob('C29.reference', x is not None and strip(x) == WHOLE[k], name, how, '{} is {}'.format(k, shows(x)[:60]))


def placed(ctx):
    name = MOD + 'add_support'
    svc = sym('the authorization service')
    r = ctx.run(name, args={'services': dct({'authorization': svc})})
    fn = ('func', MOD + 'push_authorization')
    for o in r.outs if r else ():
        if not ctx.ob('C29.placed', o.kind == 'return', name, 'services', 'fails'):
            continue
        hooks = [v for _, v in r.get_attr(o, svc, 'post_construct')]
        have = hooks and all(h[0] == 'obj' and h[4] and h[4][-1][0] in ('e', 'ext') and mentions(h[4][-1][1], fn) for h in hooks)
        ctx.ob('C29.placed', bool(have), name, 'post_construct', 'requests are not pushed as the last step: {}'.format(shows(hooks[0])[:60]))
        conf = [e for _, e, _ in events(o, 'setitem') if strip(e.args[0]) == C('pushed_authorization')]
        ctx.ob('C29.placed', len(conf) == 1, name, 'configuration', 'not configured')
        for e in conf:
            for k in ('body_format', 'signing_algorithm', 'http_client', 'merge_rule'):
                for _, v in r.get(o, e.args[1], k):
                    ctx.ob('C29.placed', v is not None and strip(v) == sym(k), name, k, '{} is {}'.format(k, shows(v)[:60]))
