"""Explicit request arguments win over every default.

gather_request_args is interpreted for every combination of places where a parameter can be found. Building a request is then
interpreted for every service, with every parameter given by the caller and also present everywhere else.
"""
import ast
from itertools import product

from ..q import *
from ..terms import C, contains, is_const, show

SERVICE = 'oidcrp.service.Service'
PLACES = ('own', 'configured', 'registration', 'default', 'negotiated')
PIPE = {'construct', 'do_pre_construct', 'do_post_construct', 'gather_request_args', 'multiple_extend_request_args', 'extend_request_args',
        'method_args', 'pick_redirect_uri', 'add_callback_uris'}
# values that follow from others or from the session, whatever the caller says
DERIVED = {'oidcrp.oidc.end_session.EndSession': {'id_token_hint', 'id_token'}, 'oidcrp.oidc.check_session.CheckSession': {'id_token'},
           'oidcrp.oidc.check_id.CheckID': {'id_token'}, 'oidcrp.oidc.registration.Registration': {'grant_types', 'jwks', 'jwks_uri'}}


# these are for the authentication of the client, or stand for one another
LEFT_OUT = {'client_id', 'client_secret', 'jwks', 'jwks_uri'}


def check(ctx):
    ctx.rule('C36.given', 'what the caller gave is what is in the request', 40)
    ctx.rule('C36.order', 'what the caller did not give is taken from the first place that has it', 30)
    ctx.rule('C36.known', 'only parameters of the request type are filled in', 30)
    ctx.rule('C36.built', 'no step of building a request replaces what the caller gave', 60)
    ctx.rule('C36.used', 'requests are built from what has been gathered', 2)
    ctx.rule('C36.redirect', "the redirect URI is the caller's or one of the client", 2)
    done = set()
    for m in impls(ctx, SERVICE, 'gather_request_args'):
        f = ctx.prog.func(m)
        if f.dotted in done:
            continue
        done.add(f.dotted)
        for have in product((False, True), repeat=len(PLACES)):
            for mine in (None, C('mine'), C(''), C(0), C(False), lst()):
                if mine is not None and mine != C('mine') and sum(have) not in (0, 5):
                    continue
                gather(ctx, m, have, mine)
        for i, place in enumerate(PLACES):
            for v in (0, False):
                gather(ctx, m, tuple(j >= i for j in range(5)), None, {place: v})
        redirect(ctx, m, f)
    for c in ctx.prog.subclasses(SERVICE):
        if c.module.is_repo and c.dotted != SERVICE:
            built(ctx, c)
    used(ctx)
    completed(ctx)
    start(ctx)
    registering(ctx)
    behaviour(ctx)
    how(ctx)


def placed(have, special=None):
    """what is found in each place, the parameters 'p' and, which no request type knows, 'zz'"""
    special = special or {}
    items = {p: {'p': special.get(p, 'the ' + p), 'zz': 'other ' + p} if h else {'zz': 'other ' + p} for p, h in zip(PLACES, have)}
    return {('attr', CTX, 'p'): C(items['own'].get('p')), ('attr', CTX, 'zz'): C('other own'), ('attr', CTX, 'redirect_uri'): C(None),
            ('attr', SELF, 'conf'): dct({'request_args': dct(items['configured'])} if any(have) else {}), ('attr', CTX, 'register_args'): dct(items['registration']),
            ('attr', SELF, 'default_request_args'): dct(items['default']), ('attr', CTX, 'behaviour'): dct(items['negotiated']),
            ('attr', at(SELF, 'msg_type'), 'c_param'): c_param({'p': (False, False), 'q': (False, False)}), ('attr', CTX, 'q'): C(None),
            ('attr', CTX, 'redirect_uris'): lst('https://cb'), ('attr', CTX, 'config'): dct({'request_args': dct({'p': 'stray', 'q': 'stray'}), 'p': 'stray', 'q': 'stray'}),
            ('attr', CTX, 'provider_info'): dct({'p': 'stray', 'q': 'stray'}), ('attr', CTX, 'registration_response'): dct({'p': 'stray', 'q': 'stray'}),
            ('attr', CTX, 'client_preferences'): dct({'p': 'stray', 'q': 'stray'})}


def gather(ctx, m, have, mine, special=None):
    args = {'extra': C('the extra')}
    if mine is not None:
        args['p'] = mine
    r = ctx.run(m, args={'kwargs': dct(args)}, given=placed(have, special), transparent={'gather_request_args'})
    first = [p for p, h in zip(PLACES, have) if h][:1]
    for o in r.outs if r else ():
        if not ctx.ob('C36.given', o.kind == 'return', m, 'raise', 'fails when p is {} and found in {}'.format(mine and shows(mine), have)):
            continue
        for _, v in r.get(o, r.value(o), 'p'):
            v = v if v is None else strip(v)
            if mine is not None:
                ctx.ob('C36.given', v == strip(mine), m, 'p', 'the parameter given as {} is {}'.format(shows(mine), shows(v)))
            elif first:
                want = C((special or {}).get(first[0], 'the ' + first[0]))
                ctx.ob('C36.order', v == want and (v is None or type(v[2]) is type(want[2])), m, first[0], 'the parameter is {} when it is found in {}'.format(
                    shows(v), [p for p, h in zip(PLACES, have) if h]))
            else:
                ctx.ob('C36.order', v is None, m, 'p', 'the parameter found nowhere is ' + shows(v))
        for _, v in r.get(o, r.value(o), 'extra'):
            ctx.ob('C36.given', v is not None and strip(v) == C('the extra'), m, 'extra', 'a parameter of the caller is ' + shows(v))
        for k in ('zz', 'q'):
            for _, v in r.get(o, r.value(o), k):
                ctx.ob('C36.known', v is None, m, k, 'a parameter that {} is {}'.format('is found nowhere' if k == 'q' else 'the request type does not know', shows(v)))
        keys, other = keys_of(strip(r.value(o)))
        ctx.ob('C36.known', not other, m, 'all', 'everything found somewhere is added')


def redirect(ctx, m, f):
    """services that fill in a redirect URI"""
    if f.cls is None or f.cls.dotted == SERVICE or 'uthorization' not in f.cls.dotted:
        return
    for mine in (None, C('https://mine')):
        r = ctx.run(m, args={'kwargs': dct({'redirect_uri': mine} if mine else {})}, given=placed((False,) * 5), transparent={'gather_request_args'})
        for o in r.returns if r else ():
            for _, v in r.get(o, r.value(o), 'redirect_uri'):
                ctx.ob('C36.redirect', v is not None and strip(v) == (mine or C('https://cb')), m, 'redirect_uri', 'the redirect URI is ' + shows(v))


def message_type(ctx, c):
    ca = ctx.prog.class_attr(c, 'msg_type')
    r = ctx.prog.resolve_expr(ca[0].module, ca[1]) if ca else None
    return r[1].dotted if r and r[0] == 'cls' else None


def hooks(ctx, c, name):
    r = ctx.run(c.dotted + '.__init__', args={'conf': C(None)})
    found = {strip(v) for o in (r.returns if r else ()) for _, v in r.get_attr(o, SELF, name)}
    v = found.pop() if len(found) == 1 else None
    return v if v is not None and elements(v) is not None else None


def built(ctx, c):
    req, pre, post = message_type(ctx, c), hooks(ctx, c, 'pre_construct'), hooks(ctx, c, 'post_construct')
    m = ctx.prog.find_method(c, 'construct')
    if req is None or pre is None or post is None or m is None:
        ctx.unclear('how requests of {} are built'.format(c.dotted))
        return
    par = params_of(ctx, req)
    if not par:
        # no parameters of its own
        par = {'p': (False, False), 'state': (False, False)}

    def some(what, only=par):
        return {k: lst(what + '-' + k, 'openid', 'offline_access') if par[k] and par[k][0] else C(what + '-' + k) for k in only}
    skip = DERIVED.get(c.dotted, set())
    names = sorted(k for k in par if k not in skip)
    for given_, short, after in ((names, False, lst()), (names[::2], True, lst()), (names[1::2], False, lst()), (names, True, post),
                                 (names[::2], False, post), (names[1::2], True, post)):
        mine = some('mine', given_)
        if short:
            mine = {k: C('x') if is_const(v) else v for k, v in mine.items()}
        if 'state' in mine:
            mine['state'] = C('the state')
        mine['of_my_own'] = C('mine')
        given = {('attr', SELF, 'pre_construct'): pre, ('attr', SELF, 'post_construct'): after, ('attr', SELF, 'conf'): dct({'request_args': dct(some('conf'))}),
                 ('attr', SELF, 'default_request_args'): dct(some('default')), ('attr', CTX, 'behaviour'): dct(some('behaviour')),
                 ('attr', CTX, 'register_args'): dct(some('registration')), ('attr', at(SELF, 'msg_type'), 'c_param'): c_param(par),
                 ('attr', CTX, 'callback'): dct({'code': 'cb1', 'implicit': 'cb2', 'form_post': 'cb3'}), ('attr', CTX, 'redirect_uris'): lst('cb'),
                 ('attr', CTX, 'client_preferences'): dct(some('preferences')), ('attr', CTX, 'config'): dct({'jwks_uri': 'u'})}
        given.update({('attr', CTX, k): C('own-' + k) for k in par if ('attr', CTX, k) not in given and k != 'state'})
        r = ctx.run(c.dotted + '.construct', unroll_max=80, transparent=PIPE, inline=PIPE, given=given, results={'get_item': dct(some('stored')), 'create_state': C('the state')},
                    args={'request_args': dct(mine), 'kwargs': dct({'state': 'the state'})})
        if r and not r.returns:
            ctx.unclear('no request of {} is seen to be built'.format(c.dotted))
        for o in r.returns if r else ():
            for k in mine:
                for _, v in r.get(o, r.value(o), k):
                    if contains(strip(v), lambda t: t[0] == 'after') if v is not None else False:
                        ctx.unclear('{} may be changed by {}'.format(k, shows(v)[:60]))
                        continue
                    if v is None and after == post and k in LEFT_OUT:
                        # finishing a request may leave out what goes elsewhere, but not replace it
                        continue
                    ctx.ob('C36.built', v is not None and strip(v) == strip(mine[k]), c.dotted + '.construct', k,
                           '{} given as {} is {} in the request'.format(k, shows(mine[k]), shows(v)[:80]))


def used(ctx):
    done = set()
    for m in impls(ctx, SERVICE, 'construct'):
        f = ctx.prog.func(m)
        if f.dotted in done:
            continue
        done.add(f.dotted)
        r = ctx.run(m, given={('attr', SELF, 'pre_construct'): lst(), ('attr', SELF, 'post_construct'): lst()}, transparent={'do_pre_construct', 'do_post_construct'},
                    args={'request_args': dct({'p': 'mine'}), 'kwargs': dct({})})
        for o in r.returns if r else ():
            got = calls(o, 'gather_request_args')
            ctx.ob('C36.used', len(got) == 1, m, 'gather_request_args', 'the arguments are gathered {} times'.format(len(got)))
            for _, e, _ in got:
                ctx.ob('C36.used', [v for _, v in kwval(e, 'p', r.eng, o.state)] == [C('mine')], m, 'p', "the caller's arguments are not what is completed", e.line)
                ctx.ob('C36.used', contains(strip(r.value(o)), lambda t: t == strip(e.res)), m, 'request', 'the request is not what was gathered', e.line)
        # what is not given is left to be filled in
        for kw in ({}, {'state': 'other'}):
            r = ctx.run(m, given={('attr', SELF, 'pre_construct'): lst(), ('attr', SELF, 'post_construct'): lst(),
                                  ('attr', at(SELF, 'msg_type'), 'c_param'): c_param({'state': (False, False), 'nonce': (False, False)})},
                        transparent={'do_pre_construct', 'do_post_construct'}, args={'request_args': dct({'nonce': 'mine'}), 'kwargs': dct(kw)})
            ctx.ob('C36.used', r is None or bool(r.returns), m, 'return', 'no request can be made with {}'.format(kw or 'no state'))
            for o in r.returns if r else ():
                for _, e, _ in calls(o, 'gather_request_args'):
                    ctx.ob('C36.used', [v for _, v in kwval(e, 'state', r.eng, o.state)] == [C(kw['state']) if kw else None], m, 'state',
                           'the state of a request is not that of the session it is for', e.line)
        # the state of the request counts before the one that says which session it is for
        for more in ({}, {'nonce': 'a nonce'}, {'p': 'mine'}):
            r = ctx.run(m, given={('attr', SELF, 'pre_construct'): lst(), ('attr', SELF, 'post_construct'): lst(),
                                  ('attr', at(SELF, 'msg_type'), 'c_param'): c_param({'state': (False, False), 'nonce': (False, False)})},
                        transparent={'do_pre_construct', 'do_post_construct'},
                        args={'request_args': dct({'state': 'my state', **more}), 'kwargs': dct({'state': 'other'})})
            for o in r.returns if r else ():
                for _, e, _ in calls(o, 'gather_request_args'):
                    ctx.ob('C36.used', [v for _, v in kwval(e, 'state', r.eng, o.state)] == [C('my state')], m, 'state',
                           'the state in the request arguments of the caller is not used', e.line)


def completed(ctx):
    """scope and response type of an authorization request"""
    ctx.rule('C36.completed', 'scope and response type are those given, else those settled on, else the default; openid is among the scopes given', 10)
    for m in impls(ctx, 'oidcrp.oidc.authorization.Authorization', 'oidc_pre_construct'):
        for mine, conf, want in (
                ({'scope': ['profile']}, {'scope': ['openid', 'email']}, {'scope': {'profile', 'openid'}}),
                ({'scope': ['openid', 'phone']}, {'scope': ['openid', 'email']}, {'scope': {'openid', 'phone'}}),
                ({'scope': ['email', 'phone', 'profile']}, {}, {'scope': {'openid', 'phone', 'profile', 'email'}}),
                ({}, {'scope': ['openid', 'email']}, {'scope': {'openid', 'email'}}),
                ({}, {}, {'scope': {'openid'}, 'response_type': {'code'}}),
                ({}, {'response_types': ['code id_token', 'code']}, {'response_type': {'code id_token'}}),
                ({}, {'response_types': ['code', 'id_token', 'token']}, {'response_type': {'code'}}),
                ({}, {'response_types': ['id_token token']}, {'response_type': {'id_token token'}}),
                ({'response_type': 'id_token'}, {'response_types': ['code']}, {'response_type': {'id_token'}}),
                ({'response_type': ['code', 'token']}, {'response_types': ['code']}, {'response_type': {'code', 'token'}})):
            r = ctx.run(m, args={'request_args': listed(mine), 'kwargs': dct({})}, given={('attr', CTX, 'behaviour'): listed(conf)}, keep=lambda a: False)
            for o in r.outs if r else ():
                if not ctx.ob('C36.completed', o.kind == 'return', m, 'return', 'fails for {} with {}'.format(mine, conf)):
                    continue
                v = r.value(o)
                for k, w in want.items():
                    for _, x in r.get(o, v[1][0] if v[0] == 'tup' and v[1] else v, k):
                        got = listing(r, o, x)
                        if got is None:
                            ctx.unclear('{}: {} is {}'.format(m, k, shows(x)[:60]))
                        else:
                            ctx.ob('C36.completed', got == w, m, k, '{} is {} when {} is given and {} settled on'.format(k, sorted(got), mine, conf))


def listed(d):
    return dct({k: lst(*v) if isinstance(v, list) else C(v) for k, v in d.items()})


def listing(r, o, x):
    if x is None:
        return set()
    x = strip(r.eng.freeze(o.state, x))
    if is_const(x):
        return {x[2]} if isinstance(x[2], str) else None
    if x[0] == 'obj' and any(op[0] == 'ext' for op in x[4]):
        got = [listing(r, o, op[1]) if op[0] in ('e', 'ext') else None for op in x[4]] + [listing(r, o, x[3]) if x[3] is not None else set()]
        return None if None in got else set().union(*got)
    xs = elements(x)
    return {strip(y)[2] for y in xs} if xs is not None and all(is_const(strip(y)) for y in xs) else None


def start(ctx):
    """the handler starts an authentication with arguments of its caller"""
    ctx.rule('C36.start', 'an authentication is started with what the caller gave, completed by what is configured', 8)
    name = 'oidcrp.rp_handler.RPHandler.init_authorization'
    client = sym('the client')
    cx = context_of(client)
    for mine in ({}, {'scope': 'mine', 'prompt': 'mine'}, {'prompt': ''}, {'of_my_own': 'mine'}, None):
        for conf in ({'prompt': 'conf', 'display': 'conf'}, {'display': 'conf'}, {'claims': {'id_token': 'of the claims'}}, {}):
            r = ctx.run(name, types={client: 'oidcrp.oidc.RP'}, results={'get_client_from_session_key': client}, args={'client': client, 'req_args': C(None) if mine is None else dct({k: C(v) for k, v in mine.items()})},
                        given={('attr', cx, 'config'): dct({'request_args': dct({k: dct(v) if isinstance(v, dict) else C(v) for k, v in conf.items()})} if conf else {}),
                               ('attr', cx, 'behaviour'): dct({'scope': C('negotiated'), 'response_types': lst('code')})})
            for o in r.outs if r else ():
                for _, e, _ in calls(o, 'get_request_parameters'):
                    for k, v in {'scope': 'negotiated', **conf, **(mine or {})}.items():
                        for _, x in r.get(o, arg(e, 'request_args', 0, C(None)), k):
                            if isinstance(v, dict):
                                ctx.ob('C36.start', x is not None and mentions(x, C('of the claims')), name, k, 'the claims configured are {}'.format(shows(x)), e.line)
                                continue
                            ctx.ob('C36.start', x is not None and strip(x) == C(v), name, k, '{} is {} when the caller gives {} and {} is configured'.format(
                                k, shows(x), mine, conf), e.line)


def registering(ctx):
    """a registration is made with arguments of the caller of the handler"""
    ctx.rule('C36.register', 'a registration is made with the request and the behaviour arguments that the caller gave', 4)
    name = 'oidcrp.rp_handler.RPHandler.do_client_registration'
    client = sym('the client')
    for mine in ({'contacts': 'mine'}, {}, None):
        for also in ({'client_name': 'also', 'of_my_own': 'also'}, {}, None):
            r = ctx.run(name, types={client: 'oidcrp.oidc.RP'}, opaque={'load_registration_response'}, keep=lambda a: False, results={'parameters': lst('contacts', 'client_name')},
                        args={'client': client, 'request_args': C(None) if mine is None else dct(mine), 'behaviour_args': C(None) if also is None else dct(also)},
                        given={('attr', context_of(client), 'client_id'): C('')})
            for o in r.returns if r else ():
                if truthy(o.facts, r.eng, client) is False:
                    continue
                done = calls(o, 'load_registration_response', 'do_request')
                ctx.ob('C36.register', len(done) == 1, r.func, 'registration', 'a client without an identifier is registered {} times'.format(len(done)))
                for _, e, _ in done:
                    ra = r.eng.freeze(o.state, arg(e, 'request_args', 1, C(None)))
                    for k in ('contacts', 'client_name'):
                        want = (mine or {}).get(k, (also or {}).get(k))
                        for _, x in r.get(o, ra, k) if strip(ra) != C(None) else [(None, None)]:
                            if x is not None and not is_const(strip(x)):
                                ctx.unclear('{}: {} is {}'.format(name, k, shows(x)[:60]))
                            else:
                                ctx.ob('C36.register', (None if x is None else strip(x)) == (None if want is None else C(want)), r.func, k,
                                       '{} is {} where the caller gave {} and {}'.format(k, shows(x), mine, also), e.line)


def behaviour(ctx):
    """what a caller of the handler says about how things are to be done reaches where they are done"""
    ctx.rule('C36.behaviour', 'the behaviour arguments of the caller reach the discovery, the registration, the request and the fetching of tokens', 6)
    rph = 'oidcrp.rp_handler.RPHandler.'
    mine = sym('behaviour_args')
    for m, inner in (('begin', ('client_setup', 'init_authorization')), ('client_setup', ('do_provider_info', 'do_client_registration')),
                     ('init_authorization', ('get_request_parameters',)), ('finalize', ('get_access_and_id_token',))):
        r = ctx.run(rph + m, opaque={'client_setup', 'init_authorization', 'do_provider_info', 'do_client_registration', 'get_access_and_id_token'})
        seen = set()
        for o in r.outs if r else ():
            for _, e, f in calls(o, *inner):
                got = [v for n, v in e.kw if n == 'behaviour_args'] + [x for x in e.args if strip(x) == mine]
                seen.add(e.name)
                ok = bool(got) and strip(got[-1]) == mine or truthy(f, r.eng, mine) is False or fact(f, r.eng, 'none', mine) is True
                ctx.ob('C36.behaviour', ok, r.func, e.name, 'the behaviour arguments of the caller do not reach ' + e.name, e.line)
        for n in sorted(set(inner) - seen if r else ()):
            ctx.unclear('{}{}: no call of {}'.format(rph, m, n))
    for m in impls(ctx, 'oidcrp.service.Service', 'construct'):
        r = ctx.run(m, opaque={'do_pre_construct', 'do_post_construct'}, results={'do_pre_construct': ('tup', (dct({'a': 'A'}), dct({'post': 'P', 'how': 'theirs'})))},
                    args={'request_args': dct({'a': 'A'}), 'kwargs': dct({'behaviour_args': dct({'how': 'mine'})})}, keep=lambda a: False)
        for o in r.returns if r else ():
            for _, e, _ in calls(o, 'do_post_construct'):
                rest = [v for n, v in e.kw if n == '**']
                for k, want in (('how', 'mine'), ('post', 'P')):
                    got = [x for v in rest for _, x in r.get(o, v, k)] or [v for n, v in e.kw if n == k]
                    ctx.ob('C36.behaviour', [None if x is None else strip(x) for x in got] == [C(want)], r.func, k, 'what follows the making of a request has {} {}'.format(
                        k, [shows(x) for x in got]), e.line)


def how(ctx):
    """method, endpoint and the like that are given for a request"""
    ctx.rule('C36.how', 'a method, endpoint, body type or authentication method given for a request is the one used, the one of the service only when none is given', 8)
    for m in impls(ctx, 'oidcrp.service.Service', 'get_request_parameters'):
        for mine in (True, False) if m.startswith('oidcrp.service.Service.') else (True,):
            g = {('attr', SELF, 'http_method'): C('POST'), ('attr', SELF, 'request_body_type'): C('json'), ('attr', SELF, 'default_authn_method'): C('its own'),
                 ('attr', SELF, 'endpoint'): C('https://op/its/own')}
            args = {'method': C('GET' if mine else ''), 'request_body_type': C(''), 'authn_method': C('mine' if mine else ''),
                    'kwargs': dct({'endpoint': 'https://op/mine'} if mine else {})}
            want = ('GET', 'mine', 'https://op/mine') if mine else ('POST', 'its own', 'https://op/its/own')
            r = ctx.run(m, args=args, given=g, keep=lambda a: False, opaque={'construct_request', 'get_headers', 'get_http_url', 'get_http_body'},
                        transparent={'get_endpoint', 'get_authn_method'})
            for o in r.returns if r else ():
                got = {'method': [v for _, v in r.get(o, r.value(o), 'method')]}
                for _, e, _ in calls(o, 'get_headers'):
                    got.setdefault('authn_method', []).append(arg(e, 'authn_method', 2))
                    got['method'].append(arg(e, 'http_method', 1))
                for _, e, _ in calls(o, 'get_http_url'):
                    got.setdefault('endpoint', []).append(arg(e, 'url', 0))
                    got['method'].append(arg(e, 'method', 2))
                for k, w in zip(('method', 'authn_method', 'endpoint'), want):
                    for v in got.get(k, ()):
                        if v is None and k == 'method':
                            continue
                        v = strip(v) if v is not None else C(None)
                        if not is_const(v):
                            ctx.unclear('{}: {} {}'.format(m, k, show(v)[:60]))
                        else:
                            ctx.ob('C36.how', v == C(w), r.func, k, '{} is {} where {} is given'.format(k, show(v), 'one' if mine else 'none'))
