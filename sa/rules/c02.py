"""Starting an authentication creates one fresh, fully recorded session."""
from ..messages import kinds
from ..q import *
from ..terms import C, show

RPH = 'oidcrp.rp_handler.RPHandler.'
OIDC = 'oidcrp.oidc.authorization.Authorization.'
OAUTH2 = 'oidcrp.oauth2.authorization.Authorization.'
UTILS = 'oidcrp.oauth2.utils.'
SELF = ('sym', 'self')
CTX = ('attr', ('owner', SELF), '_service_context')
STORE = ('attr', CTX, 'state')


def check(ctx):
    ctx.rule('C02.kind', 'an authorization request is made as one', 1)
    kinds(ctx, 'C02.kind', 'msg_type', only=('Authorization',))
    init_authorization(ctx)
    begin(ctx)
    set_state(ctx)
    pre_construct(ctx)
    stored(ctx)
    types(ctx)
    created(ctx)
    redirect(ctx)
    hooks(ctx)


def init_authorization(ctx):
    ctx.rule('C02.session', 'init_authorization: exactly one new session is created, for the issuer of the client used')
    ctx.rule('C02.same', 'init_authorization: the state returned, the state in the request and the new session are the same')
    ctx.rule('C02.nonce', 'init_authorization: a newly drawn nonce is put in the request and mapped to the new session')
    ctx.rule('C02.args', 'init_authorization: redirect URI and scope come from the caller or the client configuration')
    r = ctx.run(RPH + 'init_authorization', keep=lambda a: a[0] in ('in', 'T', 'none') and mentions(a, C('request_args')))
    if r is None:
        return
    for o in r.returns:
        cr = calls(o, 'create_state')
        ctx.ob('C02.session', len(cr) == 1, r.func, 'create_state', '{} sessions created'.format(len(cr)))
        if len(cr) != 1:
            continue
        ev = cr[0][1]
        iss, key = strip(arg(ev, 'iss', 0)), arg(ev, 'key', 1)
        store = ev.recv
        ok = is_store(store) and iss == ('attr', store[1], 'issuer') and (key is None or key == C(''))
        ctx.ob('C02.session', ok, r.func, 'create_state arguments',
               'session in {} for {} with key {}'.format(show(store), show(iss), show(key) if key else None), line=ev.line)
        cntx = store[1]
        client = cntx[1]
        ctx.ob('C02.session', client in (('sym', 'client'),) or is_call(client, 'get_client_from_session_key'), r.func,
               'client', 'the session belongs to ' + show(client))
        if client == ('sym', 'client'):
            ctx.ob('C02.session', truthy(o.facts, r.eng, client) is not False, r.func, 'client', 'no client')
        else:
            ctx.ob('C02.session', truthy(o.facts, r.eng, ('sym', 'client')) is not True and
                   callarg(client, 'state', 0) == ('sym', 'state'), r.func, 'client',
                   'another client than the one given is used')
        res = r.value(o)
        for s, v in r.get(o, res, 'state'):
            ctx.ob('C02.same', v == strip(ev.res), r.func, 'returned state', 'state returned is ' + (show(v) if v else 'missing'))
        gp = [e for _, e, _ in calls(o, 'get_request_parameters') if is_service(e.recv, 'authorization', client)]
        ctx.ob('C02.same', len(gp) == 1, r.func, 'request', '{} authorization requests made'.format(len(gp)))
        if len(gp) != 1:
            continue
        for s, v in r.get(o, res, 'url'):
            ctx.ob('C02.same', v == ('item', strip(gp[0].res), C('url')), r.func, 'returned url',
                   'the URL is not the one of the request made: ' + (show(v) if v else 'missing'))
        args = arg(gp[0], 'request_args', 0)
        if not ctx.ob('C02.same', args is not None, r.func, 'request_args', 'the request is made without arguments'):
            continue
        for s, v in r.get(o, args, 'state'):
            ctx.ob('C02.same', v == strip(ev.res), r.func, 'state in request',
                   'the request is made with state ' + (show(v) if v else 'missing'))
        mapped = [(strip(arg(e, 'nonce', 0)), strip(arg(e, 'state', 1)), e.recv) for _, e, _ in
                  calls(o, 'store_nonce2state')]
        given = [('sym', 'req_args'), ('item', ('attr', cntx, 'config'), C('request_args'))]
        for s, v in r.get(o, args, 'nonce'):
            ok = v is not None and (v[0] == 'item' and v[1] in given or
                                    is_call(v, 'rndstr') and (v, strip(ev.res), store) in mapped)
            ctx.ob('C02.nonce', ok, r.func, 'nonce', 'nonce in request is {}, mapped: {}'.format(
                show(v) if v else 'missing', ', '.join(show(m[0]) for m in mapped)))
        for s, v in r.get(o, args, 'redirect_uri'):
            ok = v is not None and (v[0] == 'item' and v[1] in given or is_call(v, 'pick_redirect_uri') and
                                    strip(callarg(v, 'context', 0)) == cntx and
                                    (given[0] in sources(callarg(v, 'request_args', 1, C(None)))
                                     or truthy(s.facts, r.eng, given[0]) is not True))
            ctx.ob('C02.args', ok, r.func, 'redirect_uri', 'redirect_uri is ' + (show(v) if v else 'missing'))
        for s, v in r.get(o, args, 'scope'):
            ok = v is not None and (v[0] == 'item' and v[1] in given or
                                    v == ('item', ('attr', cntx, 'behaviour'), C('scope')))
            ctx.ob('C02.args', ok, r.func, 'scope', 'scope is ' + (show(v) if v else 'missing'))
        ctx.ob('C02.args', set(sources(args)) <= set(given), r.func, 'request_args',
               'arguments come from ' + ', '.join(show(x) for x in sources(args)))
        # what the caller gives goes into the request
        if r.eng.decide(o.state, ('none', given[0])) is False and truthy(o.facts, r.eng, given[0]) is not False:
            ctx.ob('C02.args', given[0] in sources(args), r.func, 'req_args', 'the arguments given are not used')
        # and so does what is configured
        if truthy(o.facts, r.eng, given[1]) is not False and fact(o.facts, r.eng, 'in', C('request_args'), given[1][1]) is not False:
            ctx.ob('C02.args', given[1] in sources(args), r.func, 'configured', 'the request arguments configured are not used')


def begin(ctx):
    ctx.rule('C02.begin', 'begin: the client set up for the issuer or user given is the one the authorization is started with')
    r = ctx.run(RPH + 'begin')
    if r is None:
        return
    for o in r.returns:
        v = strip(o.value)
        ok = is_call(v, 'init_authorization')
        cl = strip(callarg(v, 'client', 0)) if ok and callarg(v, 'client', 0) else None
        ok = ok and is_call(cl, 'client_setup') and callarg(cl, 'iss_id', 0) == ('sym', 'issuer_id') \
            and callarg(cl, 'user', 1) == ('sym', 'user_id') and callarg(v, 'req_args', 2) == ('sym', 'req_args')
        ctx.ob('C02.begin', ok, r.func, 'result', 'returns ' + show(v))
        ctx.ob('C02.begin', len(calls(o, 'init_authorization')) == 1, r.func, 'init_authorization', 'not called once')


def set_state(ctx):
    ctx.rule('C02.set_state', 'set_state: the state of the request is that of a session created for the issuer of the client, '
             'under the key given')
    r = ctx.run(OIDC + 'set_state')
    if r is None:
        return
    ra, kw = ('sym', 'request_args'), ('sym', 'kwargs')
    for o in r.returns:
        cr = calls(o, 'create_state')
        ok = len(cr) == 1 and cr[0][1].recv == STORE and strip(arg(cr[0][1], 'iss', 0)) == ('attr', CTX, 'issuer')
        ctx.ob('C02.set_state', ok, r.func, 'create_state', 'no session is created for the issuer of the client')
        if not ok:
            continue
        e = cr[0][1]
        key = arg(e, 'key', 1)
        key = strip(key) if key else C('')
        if key == C('') or is_const(key) and not key[2]:
            ctx.ob('C02.set_state', not known_in(r, o, 'state', kw) and not known_in(r, o, 'state', ra), r.func, 'key',
                   'the state given is not used')
        else:
            ctx.ob('C02.set_state', key in (('item', kw, C('state')), ('item', ra, C('state'))), r.func, 'key',
                   'session key is ' + show(key))
        w = [x for _, x, _ in events(o, 'setitem') if x.args[0] == C('state') and x.recv == ra]
        ctx.ob('C02.set_state', bool(w) and strip(w[-1].args[1]) == strip(e.res), r.func, 'request_args',
               'the state of the session is not put in the request')
        v = r.value(o)
        ctx.ob('C02.set_state', v[0] == 'tup' and base_of(v[1][0]) == ra, r.func, 'result', 'returns ' + show(v))


def token_atom(a):
    """what decides whether an ID Token may come back"""
    return a[0] in ('in', 'T', 'eq') and any(mentions(a, C(x)) for x in ('code', 'id_token', 'openid', 'nonce'))


def denied(facts, of=None):
    """what is known not to be there"""
    res = set()
    for a, p in facts.items():
        if a[0] in ('in', 'T', 'eq') and not p and (of is None or mentions(strip(a), of)):
            res |= {x for x in ('code', 'id_token', 'openid', 'nonce') if mentions(a, C(x))}
    return res


def changed_after(o, i, req):
    """changes of the request after it was stored and before it is packed"""
    for j, e, _ in events(o, 'setitem', 'update', 'delitem', 'call'):
        if j <= i:
            continue
        if e.kind == 'delitem' or e.name == 'construct_request_parameter':
            return
        if e.kind in ('setitem', 'update') and e.recv and base_of(strip(e.recv)) == req:
            if e.kind == 'setitem' and e.args[0] in (C('request'), C('request_uri'), C('exp')):
                continue
            yield e


def base_of(t):
    while t[0] == 'obj' and t[3] is not None:
        t = t[3]
    return t


def known_in(r, o, key, cont):
    return o.facts.get(r.eng.norm_atom(('in', C(key), cont))) is True


def pre_construct(ctx):
    ctx.rule('C02.fresh', 'oidc_pre_construct: a request that may yield an ID Token has a nonce, newly drawn unless given')
    ctx.rule('C02.openid', 'oidc_pre_construct: openid is among the scopes')
    ra = ('sym', 'request_args')
    r = ctx.run(OIDC + 'oidc_pre_construct', watch=lambda e: e.kind != 'delitem', keep=token_atom)
    if r is None:
        return
    for o in r.returns:
        v = r.value(o)
        if not ctx.ob('C02.fresh', v[0] == 'tup', r.func, 'result', 'returns ' + show(v)):
            continue
        for s, n in r.get(o, v[1][0], 'nonce'):
            if n is None:
                # no ID token to be expected
                ctx.ob('C02.fresh', {'code', 'id_token'} <= denied(s.facts), r.func, 'nonce', 'no nonce in a request that may yield an ID Token')
            else:
                ctx.ob('C02.fresh', is_call(n, 'rndstr') or n == ('item', ra, C('nonce')), r.func, 'nonce',
                       'nonce is ' + show(n))
        for s, sc in r.get(o, v[1][0], 'scope'):
            ok = sc is not None
            if ok and base_of(sc) == ('item', ra, C('scope')):
                app = [e for _, e, _ in events(o, 'append') if contains(strip(e.recv), lambda x: x == ('item', ra, C('scope')))
                       and C('openid') in e.args]
                ok = bool(app) or contains(sc, lambda x: x == C('openid')) \
                    or s.facts.get(r.eng.norm_atom(('in', C('openid'), ('item', ra, C('scope'))))) is True
            elif ok:
                ok = contains(sc, lambda x: x == ('attr', CTX, 'behaviour')) or contains(sc, lambda x: x == C('openid'))
            ctx.ob('C02.openid', ok, r.func, 'scope', 'scope is ' + (show(sc) if sc else 'missing'))


TYPES = ('code', 'id_token', 'id_token token', 'token id_token', 'code id_token', 'token code', 'code token id_token', 'token', '')


def types(ctx):
    """for known response types"""
    for t in TYPES:
        needs = {'code', 'id_token'} & set(t.split(' '))
        for rt in (C(t), lst(*t.split(' '))) if t else ():
            ra = {'response_type': rt, 'scope': lst('openid')}
            r = ctx.run(OIDC + 'oidc_pre_construct', args={'request_args': dct(ra), 'kwargs': dct({})}, keep=lambda a: False)
            for o in r.returns if r and needs else ():
                v = r.value(o)
                for _, n in r.get(o, v[1][0] if v[0] == 'tup' and v[1] else v, 'nonce'):
                    ctx.ob('C02.fresh', n is not None and is_call(strip(n), 'rndstr'), r.func, 'nonce of ' + t,
                           'a request with response type {} has the nonce {}'.format(t, shows(n)))
        if not needs:
            continue
        r = ctx.run(OIDC + 'oidc_post_construct', opaque={'construct_request_parameter'}, keep=lambda a: False,
                    args={'req': dct({'response_type': lst(*t.split(' ')), 'scope': lst('openid'), 'nonce': 'n', 'state': 's'}), 'kwargs': dct({})})
        for o in r.returns if r else ():
            ok = [e for _, e, _ in calls(o, 'store_nonce2state') if (strip(arg(e, 'nonce', 0)), strip(arg(e, 'state', 1))) == (C('n'), C('s'))]
            ctx.ob('C02.mapped', len(ok) == 1, r.func, 'nonce of ' + t, 'the nonce of a request with response type {} is not mapped to the session'.format(t))


def stored(ctx):
    ctx.rule('C02.stored', 'the complete authorization request is stored under its state before anything is taken out of it')
    ctx.rule('C02.mapped', 'oidc_post_construct: the nonce of a request that may yield an ID Token is mapped to its state')
    r = ctx.run(OIDC + 'oidc_post_construct', opaque={'construct_request_parameter'}, keep=token_atom)
    req = ('sym', 'req')
    if r:
        for o in r.outs:
            st = [(i, e) for i, e, _ in calls(o, 'store_item') if e.recv == STORE]
            good = [i for i, e in st if base_of(strip(arg(e, 'item', 0))) == req and
                    arg(e, 'item_type', 1) == C('auth_request') and strip(arg(e, 'key', 2)) == ('item', req, C('state'))]
            taken = [i for i, e, _ in events(o, 'delitem', 'call') if
                     (e.kind == 'delitem' and base_of(strip(e.recv)) == req) or e.name == 'construct_request_parameter'
                     or e.kind == 'call' and e.name in ('pop', 'clear') and e.recv and base_of(strip(e.recv)) == req]
            if o.kind == 'return':
                ctx.ob('C02.stored', bool(good), r.func, 'store_item', 'the request is not stored under its state')
                for e in changed_after(o, good[-1], req) if good else ():
                    ctx.ob('C02.stored', False, r.func, 'changed', 'the request is changed after it was stored', line=e.line)
            if taken:
                ctx.ob('C02.stored', bool(good) and good[0] < taken[0], r.func, 'order',
                       'something is taken out of the request before it is stored')
            if o.kind != 'return':
                continue
            ctx.ob('C02.stored', base_of(r.value(o)) == req, r.func, 'result', 'returns ' + show(r.value(o)))
            nm = [e for _, e, _ in calls(o, 'store_nonce2state') if e.recv == STORE]
            for e in nm:
                ctx.ob('C02.mapped', strip(arg(e, 'nonce', 0)) == ('item', req, C('nonce')) and
                       strip(arg(e, 'state', 1)) == ('item', req, C('state')), r.func, 'store_nonce2state',
                       'maps {} to {}'.format(show(arg(e, 'nonce', 0)), show(arg(e, 'state', 1))), line=e.line)
            if not nm:
                no = denied(o.facts, req)
                ctx.ob('C02.mapped', bool(no & {'openid', 'nonce'}) or {'code', 'id_token'} <= no, r.func, 'nonce', 'the nonce is not mapped to the session')
    r = ctx.run(OAUTH2 + 'store_auth_request', opaque={'get_state_parameter'})
    if r:
        ra = ('sym', 'request_args')
        for o in r.returns:
            st = [e for _, e, _ in calls(o, 'store_item') if e.recv == STORE]
            ok = [e for e in st if base_of(strip(arg(e, 'item', 0))) == ra and arg(e, 'item_type', 1) == C('auth_request')
                  and is_state_param(strip(arg(e, 'key', 2)), ra)]
            ctx.ob('C02.stored', len(st) == 1 and bool(ok), r.func, 'store_item', 'the request is not stored under its state')
            at_ = [i for i, e, _ in calls(o, 'store_item') if e in ok]
            for e in changed_after(o, at_[-1], ra) if at_ else ():
                ctx.ob('C02.stored', False, r.func, 'changed', 'the request is changed after it was stored', line=e.line)
            ctx.ob('C02.stored', base_of(r.value(o)) == ra, r.func, 'result', 'returns ' + show(r.value(o)))
    r = ctx.run(UTILS + 'get_state_parameter')
    if r:
        for o in r.returns:
            v = strip(o.value)
            ctx.ob('C02.stored', v in (('item', ('sym', 'kwargs'), C('state')), ('item', ('sym', 'request_args'), C('state'))),
                   r.func, 'state', 'returns ' + show(v))
    r = ctx.run(UTILS + 'set_state_parameter')
    if r:
        ra = ('sym', 'request_args')
        for o in r.returns:
            v = r.value(o)
            ok = v[0] == 'tup' and base_of(v[1][0]) == ra
            ctx.ob('C02.stored', ok, r.func, 'result', 'returns ' + show(v))
            for _, n in r.get(o, v[1][0], 'state') if ok else ():
                ctx.ob('C02.stored', n in (('item', ('sym', 'kwargs'), C('state')), ('item', ra, C('state'))), r.func,
                       'state', 'the state is ' + (show(n) if n else 'missing'))


def is_state_param(k, ra):
    kw = ('sym', 'kwargs')
    return k in (('item', ra, C('state')), ('item', kw, C('state'))) or \
        is_call(k, 'get_state_parameter') and callarg(k, 'request_args', 0) == ra and callarg(k, 'kwargs', 1) == kw


def created(ctx):
    ctx.rule('C02.created', 'create_state: a new record naming the issuer, and nothing else, is put under the key, which is the '
             'one given or a newly drawn one')
    r = ctx.run('oidcrp.state_interface.StateInterface.create_state')
    if r is None:
        return
    db = ('attr', SELF, '_db')
    for o in r.returns:
        w = [e for _, e, _ in events(o, 'setitem') if strip(e.recv) == db]
        if not ctx.ob('C02.created', len(w) == 1, r.func, 'record', '{} records written'.format(len(w))):
            continue
        key, rec = strip(w[0].args[0]), strip(w[0].args[1])
        ctx.ob('C02.created', key == r.value(o) and (key == ('sym', 'key') or is_call(key, 'rndstr')), r.func, 'key',
               'record under {}, returned is {}'.format(show(key), show(r.value(o))))
        ctx.ob('C02.created', is_call(rec, 'to_json') and mentions(rec, ('sym', 'iss')) and
               not contains(rec, lambda t: t == db), r.func, 'content', 'the record is ' + show(rec), line=w[0].line)


def redirect(ctx):
    ctx.rule('C02.redirect', 'the redirect URI is the one given, or one of the client: its first redirect URI or its callback')
    r = ctx.run(UTILS + 'pick_redirect_uri', types={('sym', 'context'): 'oidcrp.service_context.ServiceContext'})
    ra, cx = ('sym', 'request_args'), ('sym', 'context')
    given = ('item', ra, C('redirect_uri'))
    if r:
        for o in r.returns:
            v = strip(o.value)
            own = v == ('item', ('attr', cx, 'redirect_uris'), C(0)) or \
                v[0] == 'item' and v[1] == ('attr', cx, 'callback')
            ctx.ob('C02.redirect', v == given or own, r.func, 'redirect_uri', 'returns ' + show(v))
            if own:
                ctx.ob('C02.redirect', not known_in(r, o, 'redirect_uri', ra), r.func, 'given',
                       'the redirect URI given is not used')
    r = ctx.run(UTILS + 'pre_construct_pick_redirect_uri')
    if r:
        for o in r.returns:
            v = r.value(o)
            ok = v[0] == 'tup' and base_of(v[1][0]) == ra
            ctx.ob('C02.redirect', ok, r.func, 'result', 'returns ' + show(v))
            for _, n in r.get(o, v[1][0], 'redirect_uri') if ok else ():
                ok = n is not None and (n == given or is_call(n, 'pick_redirect_uri') and callarg(n, 'request_args', 1) and
                                        base_of(strip(callarg(n, 'request_args', 1))) == ra and
                                        strip(callarg(n, 'context', 0))[-1] == '_service_context')
                ctx.ob('C02.redirect', ok, r.func, 'redirect_uri', 'redirect URI is ' + (show(n) if n else 'missing'))
    r = ctx.run(OAUTH2 + 'gather_request_args', inline_base=False)
    if r:
        for o in r.returns:
            v = r.value(o)
            for s, n in r.get(o, v, 'redirect_uri'):
                ok = n is not None and (n == ('item', ('attr', CTX, 'redirect_uris'), C(0)) or
                                        n[0] == 'item' and is_call(n[1], 'gather_request_args'))
                ctx.ob('C02.redirect', ok, r.func, 'redirect_uri', 'redirect URI is ' + (show(n) if n else 'missing'))


def hooks(ctx):
    ctx.rule('C02.hooks', 'the authorization services have the state, redirect URI, nonce and storing hooks in place')
    want = {OIDC: (['set_state', 'pre_construct_pick_redirect_uri', 'oidc_pre_construct'], ['oidc_post_construct']),
            OAUTH2: (['pre_construct_pick_redirect_uri', 'set_state_parameter'], ['store_auth_request'])}
    for cls, (pre, post) in want.items():
        r = ctx.run(cls + '__init__', watch=lambda e: e.kind in ('setattr', 'append', 'update'))
        if r is None:
            continue
        for o in r.returns:
            for attr, names in (('pre_construct', pre), ('post_construct', post)):
                v = r.eng.freeze(o.state, ('attr', SELF, attr))
                got = [s for _, s, _ in hook_values(r, o, attr)]
                for n in names:
                    ctx.ob('C02.hooks', n in got, r.func, '{} {}'.format(attr, n), 'hooks are ' + ', '.join(got))


def hook_values(r, o, attr):
    res = []
    for s, v in r.eng.load_attr(o.state, SELF, attr, None):
        v = strip(r.eng.freeze(s, v))
        for t in walk(v):
            if t[0] == 'bound':
                res.append((s, t[2].split('.')[-1], t))
            elif t[0] == 'func':
                res.append((s, t[1].split('.')[-1], t))
    return res
