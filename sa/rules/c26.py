"""A registration request is consistent with what the client will do.

The functions are small and driven by a handful of values, so they are interpreted for each of the combinations that exist (constant
propagation): every response type, every spelling of it, every response mode, every way to configure it.
"""
from itertools import permutations

from ..messages import kinds, ways
from ..q import *
from ..terms import C, is_const, show

REG = 'oidcrp.oidc.registration.'
CLS = REG + 'Registration'
SCTX = 'oidcrp.service_context.ServiceContext'
X = sym('context')
ARGS = sym('request_args')
TYPES = ['code', 'id_token', 'id_token token', 'code id_token', 'code token', 'code id_token token']
KINDS = ('code', 'implicit', 'form_post')
URIS = ('post_logout_redirect_uris', 'backchannel_logout_uri', 'frontchannel_logout_uri', 'request_uris', 'redirect_uris')


def kind(rt, mode=None):
    if mode == 'form_post':
        return 'form_post'
    return 'code' if rt == 'code' else 'implicit'


def check(ctx):
    ctx.rule('C26.way', 'a registration request is JSON that is posted to the registration endpoint', 1)
    ways(ctx, 'C26.way', ('endpoint_name', 'http_method', 'request_body_type'), only=('Registration',))
    ctx.rule('C26.kind', 'a registration request is made as one', 1)
    kinds(ctx, 'C26.kind', 'msg_type', only=('Registration',))
    ctx.rule('C26.grants', 'the grant types are exactly those that the response types need', 20)
    ctx.rule('C26.jwks', 'a key URL and a key set are never sent together', 2)
    ctx.rule('C26.given', 'what the caller gave is not replaced', 4)
    ctx.rule('C26.built', 'the registration request is completed by these steps', 4)
    ctx.rule('C26.callback', 'each response type leads to a callback that is registered', 24)
    ctx.rule('C26.preferred', 'what is registered is what was given, else the behaviour settled on, else what is preferred', 9)
    ctx.rule('C26.pick', 'the callback of a request follows from its response type and mode', 24)
    grants(ctx)
    completed(ctx)
    given(ctx)
    callbacks(ctx)
    pick(ctx)


# ---------------------------------------------------------------------------------------------- grant types

def needed(types):
    words = {w for rt in types for w in rt.split(' ')}
    return ({'authorization_code'} if 'code' in words else set()) | ({'implicit'} if words & {'id_token', 'token'} else set())


def granted(ctx, func, value, types):
    got = constants(value)
    if got is None:
        ctx.unclear('{}: grant types {}'.format(func, show(value)[:80]))
        return
    ctx.ob('C26.grants', got == needed(types), func, '+'.join(types), 'grant types {} for {}'.format(show(value)[:80], types))


def grants(ctx):
    name = REG + 'response_types_to_grant_types'
    asked = [[' '.join(p)] for rt in TYPES for p in permutations(rt.split(' '))]
    asked += [[a, b] for a in TYPES for b in TYPES if a != b] + [TYPES]
    for types in asked:
        r = ctx.run(name, args={'response_types': lst(*types)})
        for o in r.outs if r else ():
            if o.kind != 'return':
                ctx.ob('C26.grants', False, name, '+'.join(types), 'fails for {}'.format(types))
                continue
            granted(ctx, name, strip(r.value(o)), types)
    for m in impls(ctx, CLS, 'oidc_post_construct'):
        # the whole step, with the response types of a request
        for types in [[x] for x in TYPES] + [['code', 'id_token']]:
            for extra in ({}, {'grant_types': lst('password')}):
                r = ctx.run(m, args={'request_args': dct(dict({'response_types': lst(*types)}, **extra))})
                for o in r.outs if r else ():
                    if o.kind != 'return':
                        ctx.ob('C26.grants', False, m, 'raise', 'fails for response types {}'.format(types))
                        continue
                    for s, v in r.get(o, r.value(o), 'grant_types'):
                        if ctx.ob('C26.grants', v is not None, m, 'grant_types', 'no grant types'):
                            granted(ctx, m, strip(v), types)


# ---------------------------------------------------------------------------------------------- the request

def completed(ctx):
    cls = ctx.prog.cls(CLS)
    for c in [cls] + list(ctx.prog.subclasses(CLS)):
        init = ctx.prog.find_method(c, '__init__')
        if init is None or not init.module.is_repo:
            continue
        r = ctx.run(init.dotted, args={'conf': C(None)}, watch=lambda e: e.kind == 'setattr')
        for o in r.returns if r else ():
            have = {}
            for _, e, _ in events(o, 'setattr'):
                if e.recv == SELF:
                    have[e.args[0][2]] = r.eng.freeze(o.state, e.args[1])
            for at_, want in (('pre_construct', ('add_client_behaviour_preference', 'add_callback_uris', 'add_jwks_uri_or_jwks')),
                              ('post_construct', ('oidc_post_construct',))):
                v = have.get(at_)
                names = set()
                for x in walk(strip(v)) if v is not None else ():
                    if isinstance(x, tuple) and x and x[0] in ('bound', 'func'):
                        names.add(str(x[2] if x[0] == 'bound' else x[1]).split('.')[-1])
                    elif isinstance(x, tuple) and x and x[0] in ('attr', 'meth'):
                        names.add(x[2])
                for w in want:
                    ctx.ob('C26.built', w in names, init.dotted, w, '{} is no longer a step ({})'.format(w, at_))
    fs = [REG + 'add_jwks_uri_or_jwks'] + list(impls(ctx, CLS, 'oidc_post_construct'))
    for m in fs:
        r = ctx.run(m, types={sym('service'): CLS}, keep=lambda a: a[0] == 'in' and a[2] == ARGS)
        for o in r.returns if r else ():
            v = r.value(o)
            v = v[1][0] if v[0] == 'tup' else v
            for s, a in r.get(o, v, 'jwks_uri'):
                for s2, b in r.get(s, v, 'jwks'):
                    # add_jwks_uri_or_jwks adds at most one where there is none
                    ctx.ob('C26.jwks', a is None or b is None, m, 'jwks_uri and jwks', 'a request with both jwks_uri and jwks leaves')


def steps(ctx):
    yield REG + 'add_callback_uris'
    yield REG + 'add_jwks_uri_or_jwks'
    for m in impls(ctx, CLS, 'add_client_behaviour_preference'):
        yield m


def given(ctx):
    for m in steps(ctx):
        seen = False
        for key in URIS + ('jwks', 'jwks_uri', None) if m.startswith(REG + 'add_') else (None,):
            # one key at a time is followed through the whole function
            about = (('in', C(key), ARGS), ('T', ('item', ARGS, C(key))))
            r = ctx.run(m, types={sym('service'): CLS}, keep=lambda a, about=about: a in about)
            for o in r.outs if r else ():
                if o.kind == 'return':
                    v = r.value(o)
                    v = v[1][0] if v[0] == 'tup' else v
                    ctx.ob('C26.given', base_of(v) == ARGS, m, 'result', 'the arguments given are not part of the result: ' + shows(v)[:80])
                for _, e, facts in events(o, 'setitem', 'delitem'):
                    k = strip(e.args[0])
                    if base_of(strip(e.recv)) != ARGS or key is not None and k != C(key) or key is None and \
                            (k[0] == 'c' and (k[2] in URIS or k[2] in ('jwks', 'jwks_uri'))):
                        continue
                    seen = True
                    if e.kind == 'delitem':
                        ok = k == C('jwks') and known_in(r, facts, 'jwks_uri', ARGS) is True
                    else:
                        ok = fact(facts, r.eng, 'in', k, ARGS) is False or truthy(facts, r.eng, ('item', ARGS, k)) is False
                    ctx.ob('C26.given', ok, m, '{} {}'.format(e.kind, shows(k)[:60]), 'replaces what the caller gave', e.line)
        if r:
            ctx.ob('C26.given', seen, m, 'request', 'completes nothing')


# ---------------------------------------------------------------------------------------------- callbacks

def callbacks(ctx):
    name = REG + 'add_callbacks'
    for types in [[t] for t in TYPES] + [['code', 'id_token'], ['code id_token', 'code'], TYPES]:
        for form in (False, True):
            pref = {'response_types': lst(*types)}
            if form:
                pref['form_post_usable'] = C(True)
            confs = [('preferences', dct({'client_preferences': dct(pref)})), ('configuration', dct(pref))]
            if len(types) == 1 and not form:
                confs.append(('single', dct({'client_preferences': dct({'response_types': C(types[0])})})))
            for where, conf in confs:
                r = ctx.run(name, types={X: SCTX}, args={'ignore': C(None)}, given={('attr', X, 'config'): conf},
                            transparent={'create_callbacks'})
                for o in r.returns if r else ():
                    registered(ctx, r, o, name, types, form, where)
    own_kind(ctx)
    for m in [REG + 'add_callback_uris']:
        r = ctx.run(m, types={sym('service'): CLS}, opaque={'add_callbacks'})
        for o in r.returns if r else ():
            ctx.ob('C26.callback', len(calls(o, 'add_callbacks')) == 1, m, 'add_callbacks', 'no callbacks are created')


def own_kind(ctx):
    """what is registered for each kind of URI is the callback of that kind, or what is configured for it"""
    name = REG + 'add_callback_uris'
    r0 = {k: 'callback for ' + k for k in URIS}
    cx = ('attr', ('owner', sym('service')), '_service_context')
    for mine in ({}, {'redirect_uris': 'mine'}, {'request_uris': 'mine', 'post_logout_redirect_uris': 'mine'}):
        for conf in ({}, {'redirect_uris': 'configured'}, {'backchannel_logout_uri': 'configured', 'request_uris': 'configured'}):
            for cb in (r0, {k: r0[k] for k in URIS[1:4]}, {k: r0[k] for k in URIS[4:]}):
                r = ctx.run(name, types={sym('service'): CLS}, opaque={'add_callbacks'}, keep=lambda a: False, args={'request_args': dct(mine)},
                            given={('attr', cx, 'register_args'): dct(conf), ('attr', cx, 'callback'): dct(cb)})
                for o in r.returns if r else ():
                    v = r.value(o)
                    for k in URIS:
                        want = mine.get(k) or conf.get(k) or cb.get(k)
                        for _, x in r.get(o, v[1][0] if v[0] == 'tup' and v[1] else v, k):
                            ctx.ob('C26.callback', (strip(x) if x is not None else None) == (C(want) if want else None), name, k,
                                   '{} is registered as {} where it is {!r}'.format(k, shows(x), want))


def registered(ctx, r, o, name, types, form, where):
    cb = None
    for _, e, _ in events(o, 'setattr'):
        if e.recv == X and strip(e.args[0]) == C('callback'):
            cb = strip(r.eng.freeze(o.state, e.args[1]))
    what = '{} ({}{})'.format('+'.join(types), where, ', form_post' if form else '')
    if not ctx.ob('C26.callback', cb is not None, name, what, 'the callbacks are not kept'):
        return
    want = {kind(t) for t in types} | ({'form_post'} if form else set())
    uris, have = {}, set()
    for k in KINDS:
        vs = [v for _, v in r.get(o, cb, k)]
        if all(v is not None for v in vs):
            have.add(k)
            uris[k] = {strip(v) for v in vs}
    ctx.ob('C26.callback', want <= have, name, what, 'no callback of kind {} for {}'.format(sorted(want - have), types))
    ctx.ob('C26.callback', have <= want, name, what, 'a callback of kind {} for {}, which makes no use of it'.format(sorted(have - want), types))
    every = [x for k in uris for x in uris[k]]
    ctx.ob('C26.callback', len(set(every)) == len(every), name, what, 'two kinds share one callback')
    for _, v in r.get(o, cb, 'redirect_uris'):
        got = set()
        v = strip(v) if v is not None else C(None)
        if v[0] == 'obj':
            got = {strip(op[1]) for op in v[4]}
        elif v[0] == 'tup':
            got = {strip(x) for x in v[1]}
        missing = [k for k in want & have if not uris[k] <= got]
        ctx.ob('C26.callback', not missing, name, what, 'the callback for {} is not registered: {}'.format(missing, show(v)[:80]))


# ---------------------------------------------------------------------------------------------- choice

def picked(ctx, func, v, want, construct):
    v = strip(v) if v is not None else C(None)
    if not is_const(v) and want in KINDS:
        ctx.unclear('{}: {}: redirect_uri {}'.format(func, construct, show(v)[:80]))
        return
    ctx.ob('C26.pick', v == C('uri of ' + want if want in KINDS else want), func, construct,
           'a request that goes with {} uses {}'.format(want, show(v)[:60]))


def pick(ctx):
    name = 'oidcrp.oauth2.utils.pick_redirect_uri'
    cb = dct({k: 'uri of ' + k for k in KINDS})
    fixed = {('attr', X, 'callback'): cb, ('attr', X, 'redirect_uris'): lst(),
             ('attr', X, 'behaviour'): dct({'response_types': lst('id_token token')})}
    for t in TYPES:
        for mode in (None, 'query', 'fragment', 'form_post'):
            for form in ('request', 'argument', 'list'):
                req = {'response_type': lst(*t.split(' ')) if form == 'list' else C(t)} if form != 'argument' else {}
                if mode:
                    req['response_mode'] = C(mode)
                args = {'request_args': dct(req), 'response_type': C(t) if form == 'argument' else C('')}
                r = ctx.run(name, types={X: SCTX}, args=args, given=fixed)
                for o in r.outs if r else ():
                    picked(ctx, name, r.value(o) if o.kind == 'return' else None, kind(t, mode), '{} {} by {}'.format(t, mode, form))
    # nothing asked for: what the client uses by default
    for t in TYPES:
        g = dict(fixed)
        g[('attr', X, 'behaviour')] = dct({'response_types': lst(t)})
        r = ctx.run(name, types={X: SCTX}, args={'request_args': C(None), 'response_type': C('')}, given=g)
        for o in r.outs if r else ():
            picked(ctx, name, r.value(o) if o.kind == 'return' else None, kind(t), t + ' by default')
    # explicit
    for g in (fixed, {}):
        r = ctx.run(name, types={X: SCTX}, args={'request_args': dct({'redirect_uri': 'mine'})}, given=g)
        for o in r.outs if r else ():
            picked(ctx, name, r.value(o) if o.kind == 'return' else None, 'mine', 'explicit')
    g = {('attr', X, 'callback'): cb, ('attr', X, 'redirect_uris'): lst('first', 'second')}
    r = ctx.run(name, types={X: SCTX}, args={'request_args': dct({'response_type': 'code'})}, given=g)
    for o in r.outs if r else ():
        v = strip(r.value(o)) if o.kind == 'return' else C(None)
        ctx.ob('C26.pick', v in (C('first'), C('second')), name, 'registered', 'not a registered callback: ' + show(v)[:60])
    begin(ctx, cb)
    default(ctx)
    preferred(ctx)


def begin(ctx, cb):
    """the redirect_uri of an authorization request goes with the response type and mode that are sent"""
    name = 'oidcrp.rp_handler.RPHandler.init_authorization'
    r = ctx.run(name, opaque={'pick_redirect_uri'})
    bases = set()
    for o in r.outs if r else ():
        for _, e, _ in calls(o, 'pick_redirect_uri'):
            bases.add(strip(arg(e, 'context', 0)))
    if not r or not ctx.ob('C26.pick', bool(bases), name, 'pick_redirect_uri', 'no callback is picked'):
        return
    for conf in ({}, {'response_mode': 'form_post'}, {'response_type': 'code'}, {'response_type': 'id_token'}):
        for mine in ({}, {'response_mode': 'form_post'}, {'response_type': 'code'}, {'response_type': 'code token'}):
            g = {}
            for base in bases:
                g.update({('attr', base, 'callback'): cb, ('attr', base, 'redirect_uris'): lst(),
                          ('attr', base, 'behaviour'): dct({'response_types': lst('code'), 'scope': lst('openid')}),
                          ('attr', base, 'config'): dct({'request_args': dct(conf)} if conf else {})})
            r = ctx.run(name, given=g, args={'req_args': dct(mine) if mine else C(None)}, transparent={'pick_redirect_uri'})
            merged = dict({'response_type': 'code'}, **dict(conf, **mine))
            for o in r.returns if r else ():
                for _, e, _ in calls(o, 'get_request_parameters'):
                    ra = arg(e, 'request_args', 0)
                    for s, v in r.get(o, strip(r.eng.freeze(o.state, ra)), 'redirect_uri'):
                        picked(ctx, name, v, kind(merged['response_type'], merged.get('response_mode')),
                               'configured {} given {}'.format(conf, mine))


def default(ctx):
    """the response type used by default is the one that the default callback belongs to"""
    for name in impls(ctx, 'oidcrp.oauth2.authorization.Authorization', 'oidc_pre_construct'):
        for types in (['code', 'id_token'], ['id_token', 'code'], ['id_token token'], ['code id_token token', 'code', 'id_token']):
            r = ctx.run(name, args={'request_args': dct({'state': 'S'}), 'post_args': C(None), 'kwargs': dct({})}, keep=lambda a: False,
                        given={('attr', CTX, 'behaviour'): dct({'response_types': lst(*types)})})
            for o in r.returns if r else ():
                v = strip(r.value(o))
                ra = v[1][0] if v[0] == 'tup' and v[1] else v
                for _, t in r.get(o, ra, 'response_type'):
                    ctx.ob('C26.pick', t is not None and strip(t) == C(types[0]), r.func, 'default response_type',
                           'with {} the response type is {} and the callback that of {}'.format(types, shows(t), types[0]))


def preferred(ctx):
    """what is registered is the behaviour that was settled on, else what is preferred, whatever its value"""
    given, settled, wish = {'a': 'A', 'e': False}, {'a': 'b', 'b': 'B', 'c': False, 'd': '', 'e': True}, {'b': 'w', 'c': True, 'd': 'w', 'p': 'P', 'q': False, 'x': 'X'}
    params = {k: (0, 0) for k in 'abcdepqz'}
    for m in impls(ctx, CLS, 'add_client_behaviour_preference'):
        r = ctx.run(m, args={'request_args': dct(given), 'kwargs': dct({})}, keep=lambda a: False,
                    given={('attr', at(SELF, 'msg_type'), 'c_param'): c_param(params), ('attr', CTX, 'behaviour'): dct(settled),
                           ('attr', CTX, 'client_preferences'): dct(wish)})
        for o in r.returns if r else ():
            v = strip(r.value(o))
            ra = v[1][0] if v[0] == 'tup' and v[1] else v
            for k in list(params) + ['x']:
                want = given.get(k, settled.get(k, wish.get(k))) if k in params else None
                for _, t in r.get(o, ra, k):
                    ctx.ob('C26.preferred', (None if t is None else strip(t)) == (C(want) if want is not None else None), r.func, k,
                           'registered is {} where {} was given, {} settled on and {} preferred'.format(shows(t), given.get(k), settled.get(k), wish.get(k)))
