"""A logout request concerns exactly the session it was made for.

The request is built by three small hooks, which are interpreted for sample sessions, sample registrations and sample arguments.
"""
from ..messages import kinds, ways
from ..q import *
from ..terms import C, contains, is_const, show

CLS = 'oidcrp.oidc.end_session.EndSession'
REQ = 'oidcmsg.oidc.session.EndSessionRequest'
RPH = 'oidcrp.rp_handler.RPHandler'
SI = 'oidcrp.state_interface.StateInterface'
S = sym('the session')
PIPE = {'construct_request', 'construct', 'do_pre_construct', 'do_post_construct', 'method_args', 'gather_request_args',
        'get_headers', 'get_authn_header', 'multiple_extend_request_args', 'extend_request_args', 'get_item'}
ITEMS = ('auth_response', 'token_response', 'refresh_token_response')


def check(ctx):
    ctx.rule('C33.way', 'a logout request is for the logout endpoint', 1)
    ways(ctx, 'C33.way', ('endpoint_name',), only=('EndSession',))
    ctx.rule('C33.kind', 'a logout request is made as one', 1)
    kinds(ctx, 'C33.kind', 'msg_type', only=('EndSession',))
    ctx.rule('C33.hint', 'the hint is an ID Token of the session, unmodified', 8)
    ctx.rule('C33.session', 'the session looked at is the one the request is made for', 8)
    ctx.rule('C33.state', "the logout state is the caller's or a new one", 8)
    ctx.rule('C33.bound', 'the logout state sent is recorded as leading to the session', 8)
    ctx.rule('C33.uri', "the user returns to the caller's URI or a registered one", 8)
    ctx.rule('C33.back', 'a logout state leads to what was recorded for it', 2)
    ctx.rule('C33.asked', 'the service of the client of the session makes the request', 6)
    ctx.rule('C33.unable', 'a client that can not log out says so', 2)
    for m in impls(ctx, CLS, 'get_request_parameters'):
        hooks = pre_hooks(ctx)
        if hooks is None:
            ctx.unclear('the steps of {} are not known'.format(CLS))
            continue
        for items in ((), ITEMS[:1], ITEMS[1:2], ITEMS[2:], ITEMS[:2], ITEMS[1:], ITEMS):
            request(ctx, m, hooks, items, {}, {}, {})
        for given in ({'state': C('given state')}, {'post_logout_redirect_uri': C('given uri')},
                      {'state': C('given state'), 'post_logout_redirect_uri': C('given uri')}):
            request(ctx, m, hooks, ITEMS, given, {'post_logout_redirect_uris': lst('u1', 'u2')}, {'post_logout_redirect_uris': lst('u3')})
        for reg, cb in (({}, {'post_logout_redirect_uris': lst('u1', 'u2')}), ({'post_logout_redirect_uris': lst('u1', 'u2')}, {}),
                        ({'post_logout_redirect_uris': C('u1')}, {'code': C('cb')}), ({'redirect_uris': lst('cb')}, {'code': C('cb')}),
                        ({'post_logout_redirect_uris': lst('u1')}, {'post_logout_redirect_uris': lst('u2')})):
            request(ctx, m, hooks, ITEMS[:1], {}, reg, cb)
    recorded(ctx)
    for m in impls(ctx, RPH, 'logout'):
        logout(ctx, m)
    for m in impls(ctx, RPH, 'close'):
        closed(ctx, m)


def pre_hooks(ctx):
    """the hooks that the constructor installs"""
    init = ctx.prog.find_method(ctx.prog.cls(CLS), '__init__')
    if init is None:
        return None
    r = ctx.run(CLS + '.__init__', args={'conf': C(None)})
    found = {v for o in (r.returns if r else ()) for _, v in r.get_attr(o, SELF, 'pre_construct')}
    if len(found) != 1:
        return None
    v = strip(found.pop())
    return v if elements(v) is not None else None


def request(ctx, m, hooks, items, args, registered, callback):
    session = {k: dct({'id_token': C('raw ' + k), '__verified_id_token': C('verified ' + k), 'state': S}) for k in items}
    session['auth_request'] = dct({'state': S, 'nonce': sym('nonce')})
    given = {('attr', SELF, 'pre_construct'): hooks, ('attr', SELF, 'post_construct'): lst(), ('attr', SELF, 'construct_extra_headers'): lst(),
             ('attr', SELF, 'conf'): dct({}), ('attr', SELF, 'default_authn_method'): C(''), ('attr', SELF, 'default_request_args'): dct({}), ('attr', CTX, 'behaviour'): dct({}),
             # the context has nothing under these names
             ('attr', CTX, 'id_token_hint'): C(None), ('attr', CTX, 'post_logout_redirect_uri'): C(None),
             ('attr', CTX, 'register_args'): dct(registered), ('attr', CTX, 'callback'): dct(callback),
             ('attr', at(SELF, 'msg_type'), 'c_param'): c_param({k: v for k, v in params_of(ctx, REQ).items() if k != 'ui_locales'})}
    r = ctx.run(m, transparent=PIPE, given=given, results={'get_state': dct(session)}, opaque={'get_http_url', 'get_http_body'},
                args={'request_args': dct(args), 'kwargs': dct({'state': S}), 'method': C('GET'), 'authn_method': C('')})
    uris = [u[2] for v in list(registered.values()) + list(callback.values())
            for u in (elements(v) or [v])] if not args else []
    allowed = {u for u in uris if u.startswith('u')}
    what = '{}, given {}'.format('+'.join(items), '+'.join(sorted(args)))
    for o in r.returns if r else ():
        for s, req in r.get(o, r.value(o), 'request'):
            if req is None:
                ctx.unclear('the logout request is not part of what is returned')
                continue
            for hint in vals(r, s, req, 'id_token_hint'):
                ok = hint is None if not items else hint in [C('raw ' + k) for k in items]
                ctx.ob('C33.hint', ok, r.func, 'id_token_hint', 'the hint is {} for a session with {}'.format(shows(hint), what))
            for x in vals(r, s, req, 'id_token'):
                ctx.ob('C33.hint', x is None, r.func, 'id_token', 'an ID Token is sent as id_token')
            for st in vals(r, s, req, 'state'):
                if 'state' in args:
                    ok = st == args['state']
                else:
                    ok = st is not None and is_call(st, 'rndstr') and S not in set(walk(st))
                ctx.ob('C33.state', ok, r.func, 'state', 'the logout state is ' + shows(st)[:60])
                done = calls(o, 'store_logout_state2state')
                ctx.ob('C33.bound', any(is_store(e.recv) and strip(arg(e, 'logout_state', 0, C(0))) == st and strip(arg(e, 'state', 1, C(0))) == S
                                        for _, e, _ in done), r.func, 'state', 'it is not recorded that the logout state sent leads to the session')
                ctx.ob('C33.bound', len(done) == 1, r.func, 'recorded', 'logout states are recorded {} times'.format(len(done)))
            for u in vals(r, s, req, 'post_logout_redirect_uri'):
                if 'post_logout_redirect_uri' in args:
                    ok = u == args['post_logout_redirect_uri']
                elif args:
                    ok = u is not None and is_const(u) and u[2] in ('u1', 'u2', 'u3')
                elif allowed:
                    ok = u is not None and is_const(u) and u[2] in allowed
                else:
                    ok = u is None
                ctx.ob('C33.uri', ok, r.func, 'post_logout_redirect_uri', 'the user is sent to {}, registered are {}, {}'.format(
                    shows(u), sorted(allowed), what))
        for _, e, _ in calls(o, 'get_state'):
            ctx.ob('C33.session', strip(arg(e, 'key', 0, C(0))) == S, r.func, 'get_state', 'looks at the session ' + shows(arg(e, 'key', 0)), e.line)
    if r and not r.returns:
        ctx.ob('C33.hint', False, r.func, 'raise', 'no logout request for a session with ' + what)


def vals(r, s, cont, key):
    return [v if v is None else strip(v) for _, v in r.get(s, cont, key)]


def recorded(ctx):
    """what is stored under a logout state and where it is looked for"""
    value, state = sym('a logout state'), sym('a state')
    places = set()
    for m in impls(ctx, SI, 'store_logout_state2state'):
        r = ctx.run(m, args={'logout_state': value, 'state': state}, transparent={'store_x2state'})
        for o in r.returns if r else ():
            at_ = [strip(e.args[0]) for _, e, _ in events(o, 'setitem') if e.recv == at(SELF, '_db') and strip(e.args[1]) == state]
            ctx.ob('C33.back', len(at_) == 1 and value in set(walk(at_[0])), r.func, 'store', 'the session is recorded at {}'.format([shows(x) for x in at_]))
            places |= set(at_)
    for m in impls(ctx, SI, 'get_state_by_logout_state'):
        r = ctx.run(m, args={'logout_state': value}, transparent={'get_state_by_x'})
        for o in r.returns if r else ():
            v = strip(r.value(o))
            ctx.ob('C33.back', v[0] == 'item' and v[1] == at(SELF, '_db') and {strip(v[2])} == places, r.func, 'get',
                   'the session is looked for at {} and recorded at {}'.format(shows(v), [shows(x) for x in places]))


def of_session(t, state):
    return is_call(t, 'get_client_from_session_key') and state in [strip(x) for x in t[2]] + [strip(x) for _, x in t[3]]


def logout(ctx, m):
    state, uri, mine = sym('the state'), C('https://the.uri'), sym('the client')
    for client in (C(None), mine):
        for dest in (uri, C('')):
            r = ctx.run(m, args={'state': state, 'client': client, 'post_logout_redirect_uri': dest},
                        keep=lambda a: a[0] in ('none', 'T') and involves(a[1], 'client_get'))
            ctx.ob('C33.asked', r is None or bool(r.returns), m, 'return', 'no logout is possible')
            for o in r.outs if r else ():
                asked = calls(o, 'get_request_parameters')
                if o.kind == 'raise':
                    continue
                if not ctx.ob('C33.asked', len(asked) == 1, r.func, 'request', '{} logout requests'.format(len(asked))):
                    continue
                e, f = asked[0][1], asked[0][2]
                srv = strip(e.recv)
                ctx.ob('C33.asked', C('end_session') in set(walk(srv)), r.func, 'service', 'the request is made by ' + shows(srv)[:80], e.line)
                ok = contains(srv, lambda t: t == mine if client == mine and truthy(f, r.eng, mine) is not False else of_session(t, state))
                ctx.ob('C33.asked', ok, r.func, 'client', 'the request is made by ' + shows(srv)[:80], e.line)
                ctx.ob('C33.asked', [strip(v or C(0)) for _, v in kwval(e, 'state', r.eng, o.state)] == [state], r.func, 'state', 'the request is not made for the session', e.line)
                ctx.ob('C33.unable', fact(f, r.eng, 'none', srv) is False or truthy(f, r.eng, srv) is True, r.func, 'end_session',
                       'a client without the service is not noticed', e.line)
                ra = kwval(e, 'request_args', r.eng, o.state)[0][1] or arg(e, 'request_args', 0)
                keys, other = keys_of(strip(ra)) if ra is not None else (set(), False)
                got = [v and strip(v) for _, v in r.get(o, ra, 'post_logout_redirect_uri')] if ra is not None else [None]
                ctx.ob('C33.asked', all(v == (uri if dest == uri else None) for v in got), r.func, 'post_logout_redirect_uri',
                       'the arguments are ' + shows(ra)[:80], e.line)
                ctx.ob('C33.asked', not other and not keys - {'post_logout_redirect_uri'}, r.func, 'request_args',
                       'the arguments are ' + shows(ra)[:80], e.line)
                ctx.ob('C33.asked', strip(r.value(o)) == strip(e.res), r.func, 'return', 'returns ' + shows(r.value(o))[:60])


def closed(ctx, m):
    state, uri, iss = sym('the state'), sym('the uri'), sym('the issuer')
    for issuer in (C(''), iss):
        r = ctx.run(m, args={'state': state, 'issuer': issuer, 'post_logout_redirect_uri': uri}, opaque={'logout'})
        for o in r.returns if r else ():
            done = calls(o, 'logout')
            if not ctx.ob('C33.asked', len(done) == 1, r.func, 'logout', '{} logouts'.format(len(done))):
                continue
            e, f = done[0][1], done[0][2]
            ctx.ob('C33.asked', strip(arg(e, 'state', 0, C(0))) == state, r.func, 'state', 'logs out of ' + shows(arg(e, 'state', 0)), e.line)
            ctx.ob('C33.asked', strip(arg(e, 'post_logout_redirect_uri', 2, C(0))) == uri, r.func, 'uri', 'the URI is lost', e.line)
            c = strip(arg(e, 'client', 1, C(None)))
            of_state = c == C(None) or of_session(c, state)
            ok = iss in set(walk(c)) if issuer == iss and truthy(f, r.eng, iss) is not False else of_state
            ctx.ob('C33.asked', ok, r.func, 'client', 'the client is ' + shows(c)[:80], e.line)
            ctx.ob('C33.asked', strip(r.value(o)) == strip(e.res), r.func, 'return', 'returns ' + shows(r.value(o))[:60])
