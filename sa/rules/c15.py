"""Tokens used for a session are the most recent ones of that same session."""
from ..q import *
from ..terms import C, show

RESPONSES = ('auth_response', 'token_response', 'refresh_token_response')
RANK = {n: i for i, n in enumerate(RESPONSES)}
SI = 'oidcrp.state_interface.StateInterface.'
REQ = sym('request')


def check(ctx):
    lookup(ctx)
    bearer(ctx)
    userinfo(ctx)
    precedence(ctx)
    refresh(ctx)
    newest(ctx)


def tup(*a):
    return ('tup', tuple(C(x) for x in a))


# ---------------------------------------------------------------- what a look-up yields
def lookup(ctx):
    ctx.rule('C15.later', 'of several items that have a parameter the last one named wins, its verified form first')
    ctx.rule('C15.key', 'only the record under the key given is read')
    for name, kinds in (('multiple_extend_request_args', ('a', 'b')), ('extend_request_args', None)):
        args = {'parameters': tup('p')}
        if kinds:
            args['item_types'] = tup(*kinds)
        r = ctx.run(SI + name, args=args, keep=lambda a: True)
        for o in r.returns if r else ():
            ctx.ob('C15.key', base_of(r.value(o)) == sym('args'), r.func, 'result', 'returns ' + shows(r.value(o)))
            for s, v in r.get(o, sym('args'), 'p'):
                judge(ctx, r, s, v, kinds)


def source(r, t, kinds):
    """(container of one item, item type) of the session under the key"""
    if kinds is None:
        if is_call(t, 'get_item') and strip(callarg(t, 'key', 2)) == sym('key') and \
                strip(callarg(t, 'item_type', 1)) == sym('item_type') and recv(t) == SELF:
            return 0
        return None
    ss = sess(t)
    if ss and strip(ss[1]) == sym('key') and ss[0] == SELF:
        return kinds.index(ss[2]) if ss[2] in kinds else None
    return None


def judge(ctx, r, s, v, kinds):
    f = s.facts
    conts = {}
    for a, p in f.items():
        for x in a[1:]:
            for t in (walk(x) if isinstance(x, tuple) else ()):
                i = source(r, t, kinds) if isinstance(t, tuple) and t else None
                if i is not None:
                    conts[i] = t
    orig = truthy(f, r.eng, sym('orig'))
    names = ['p'] if orig else ['__verified_p', 'p']
    order = [(i, n) for i in reversed(range(len(kinds or 'x'))) for n in names]

    def missing(i, n):
        c = conts.get(i)
        if c is not None and known_in(r, f, n, c) is False:
            return True
        if kinds is not None:
            return any(a[0] == 'in' and not p and a[1] == C(kinds[i]) and is_call(a[2], 'get_state') for a, p in f.items())
        # the whole item is missing when reading it failed
        return c is None
    if v is None or v == it(sym('args'), 'p'):
        bad = [(i, n) for i, n in order if not missing(i, n)]
        ctx.ob('C15.later', not bad, r.func, 'p', 'an item is ignored: {}'.format(bad))
        return
    ok = v[0] == 'item' and is_const(v[2])
    i = source(r, v[1], kinds) if ok else None
    if not ctx.ob('C15.key', i is not None and (i, v[2][2]) in order, r.func, 'p', 'value is ' + show(v)):
        return
    above = order[:order.index((i, v[2][2]))]
    bad = [x for x in above if not missing(*x)]
    ctx.ob('C15.later', not bad, r.func, 'p', 'value is {} though there is {}'.format(show(v), bad))


# ---------------------------------------------------------------- tokens in requests
def of_session(t, keys, what='access_token'):
    """a value looked up in all responses of the session"""
    t = strip(t)
    if t[0] == 'item' and t[2] == C(what) and is_call(t[1], 'multiple_extend_request_args'):
        c = t[1]
        return strip(callarg(c, 'key', 1)) in keys and is_store(recv(c))
    return False


def bearer(ctx):
    ctx.rule('C15.bearer', 'a bearer token is the one in the request, the one given, or one of the very session')
    ctx.rule('C15.none', 'without a token the request fails')
    for typ in ('access_token', 'refresh_token'):
        r = ctx.run('oidcrp.client_auth.find_token', args={'token_type': C(typ)},
                    keep=lambda a: a == ('none', REQ) or a[0] == 'in' and a[2] in (REQ, KW))
        for o in r.returns if r else ():
            v = strip(r.value(o))
            if v == it(REQ, typ):
                ok = True
            else:
                gone = known_in(r, o.facts, typ, REQ) is False or fact(o.facts, r.eng, 'none', REQ) is True
                if v == it(KW, 'access_token'):
                    ok = gone
                else:
                    ok = gone and known_in(r, o.facts, 'access_token', KW) is False and \
                        of_session(v, (it(KW, 'key'), it(KW, 'state')))
            ctx.ob('C15.bearer', ok, r.func, typ, 'token is ' + shows(v))
        ctx.ob('C15.none', bool(r and r.raises), 'oidcrp.client_auth.find_token', 'raise', 'no exception without a token')
    for cls, meth in (('BearerHeader', 'construct'), ('BearerBody', 'construct')):
        r = ctx.run('oidcrp.client_auth.{}.{}'.format(cls, meth), opaque={'find_token'}, loop_iters=2)
        for o in r.returns if r else ():
            for _, e, _ in calls(o, 'find_token'):
                ctx.ob('C15.bearer', strip(arg(e, 'service', 2)) == sym('service') and strip(arg(e, 'request', 0)) == REQ and
                       any(n == '**' and base_of(strip(v)) == KW for n, v in e.kw), r.func, 'find_token',
                       'the token is not looked for in the request and session at hand', e.line)


def userinfo(ctx):
    ctx.rule('C15.userinfo', 'user info is requested with the token given, or else one of the session')
    r = ctx.run('oidcrp.rp_handler.RPHandler.get_user_info', keep=lambda a: a == ('T', sym('access_token')))
    for o in r.returns if r else ():
        for _, e, f in calls(o, 'do_request'):
            for s, ra in kwval(e, 'request_args', r.eng, o.state):
                for s2, t in r.get(o, ra, 'access_token') if ra is not None else [(s, None)]:
                    given = truthy(f, r.eng, sym('access_token'))
                    ok = t == sym('access_token') and given is not False or \
                        t is not None and (given is False or fact(f, r.eng, 'none', sym('access_token'))) and \
                        of_session(t, (sym('state'),))
                    ctx.ob('C15.userinfo', ok, r.func, 'access_token', 'token is ' + shows(t), e.line)
            st = [x for _, x in kwval(e, 'state', r.eng, o.state)]
            ctx.ob('C15.userinfo', st == [sym('state')], r.func, 'state', 'state is {}'.format([shows(x) for x in st]), e.line)
    r = ctx.run('oidcrp.rp_handler.RPHandler.get_user_info', args={'access_token': C('')})
    for o in r.returns if r else ():
        for _, e, f in calls(o, 'do_request'):
            for s, ra in kwval(e, 'request_args', r.eng, o.state):
                for _, t in r.get(o, ra, 'access_token') if ra is not None else [(s, None)]:
                    ctx.ob('C15.userinfo', t is None or of_session(t, (sym('state'),)), r.func, 'access_token', 'without one given the token is ' + shows(t), e.line)
    for name in impls(ctx, 'oidcrp.oidc.userinfo.UserInfo', 'oidc_pre_construct'):
        r = ctx.run(name, keep=lambda a: a[:2] == ('in', C('access_token')) or a[1] == sym('request_args'))
        for o in r.returns if r else ():
            v = strip(r.value(o))
            ra = v[1][0] if v[0] == 'tup' and v[1] else v
            for s, t in r.get(o, ra, 'access_token'):
                own = it(sym('request_args'), 'access_token')
                have = known_in(r, s.facts, 'access_token', sym('request_args'))
                if fact(s.facts, r.eng, 'none', sym('request_args')) is True or truthy(s.facts, r.eng, sym('request_args')) is False:
                    have = False
                ok = t == own and have is not False or have is False and (
                    t is None or of_session(t, (it(KW, 'state'),)))
                ctx.ob('C15.userinfo', ok, r.func, 'access_token', 'token is ' + shows(t))


# ---------------------------------------------------------------- precedence at every look-up
def precedence(ctx):
    ctx.rule('C15.order', 'the refresh response comes after the token response after the authorization response in every '
             'look-up', minimum=6)
    ctx.rule('C15.complete', 'every look-up that takes more than one response takes all of them')
    ctx.rule('C15.session', 'the session looked in is the one of the request')
    for name in owners(ctx, 'multiple_extend_request_args', 'extend_request_args'):
        if name.startswith(SI):
            continue
        r = ctx.run(name)
        for o in r.returns if r else ():
            rank, taken, params = {}, set(), {}
            for _, e, f in calls(o, 'multiple_extend_request_args', 'extend_request_args'):
                single = e.name == 'extend_request_args'
                typ = arg(e, 'item_type', 2) if single else arg(e, 'item_types', 3)
                typ = [typ] if single else elements(r.eng.freeze(o.state, typ))
                key = strip(arg(e, 'key', 3 if single else 1))
                typ = [t[2] for t in typ or () if is_const(t)]
                ranks = [RANK[t] for t in typ if t in RANK]
                ctx.ob('C15.order', ranks == sorted(ranks) and bool(typ), r.func, 'item_types', 'looks in {}'.format(typ), e.line)
                if len(ranks) > 1:
                    ctx.ob('C15.complete', set(ranks) == set(RANK.values()), r.func, 'item_types', 'looks in {}'.format(typ),
                           e.line)
                if single and ranks:
                    ctx.ob('C15.order', ranks[0] >= rank.get(key, 0), r.func, 'sequence',
                           '{} is taken after a later one'.format(typ), e.line)
                    rank[key] = ranks[0]
                    taken.add(ranks[0])
                    params.setdefault(key, {})[ranks[0]] = r.eng.freeze(o.state, arg(e, 'parameters', 4) or C(None))
                ctx.ob('C15.session', session_key(key), r.func, 'key', 'looks in the session of ' + show(key), e.line)
            if taken & {1, 2}:
                ctx.ob('C15.complete', {1, 2} <= taken, r.func, 'sequence', 'only one of token and refresh response is used')
            for key, p in params.items():
                if 1 in p and 2 in p:
                    ctx.ob('C15.complete', p[1] == p[2], r.func, 'parameters', 'not the same is taken from the token and the '
                           'refresh response: {} and {}'.format(show(p[1]), show(p[2])))


def session_key(t):
    """the session key given to the function"""
    t = strip(t)
    if t in (sym('state'), sym('key'), it(KW, 'state'), it(KW, 'key')) or is_call(t, 'get_state_parameter'):
        return True
    return t[0] == 'item' and t[1][0] == 'sym' and t[2] == C('state') or t == C('cc')


def refresh(ctx):
    ctx.rule('C15.refresh', 'a refresh response is stored beside the token response')
    for cls in ctx.prog.subclasses('oidcrp.service.Service'):
        if class_const(ctx, cls, 'service_name') != 'refresh_token':
            continue
        r = ctx.run(cls.dotted + '.update_service_context')
        for o in r.returns if r else ():
            st = calls(o, 'store_item')
            types = [strip(arg(e, 'item_type', 1)) for _, e, _ in st]
            ctx.ob('C15.refresh', types == [C('refresh_token_response')], r.func, 'store_item', 'stored as {}'.format(
                [shows(t) for t in types]))
    for cls in ctx.prog.subclasses('oidcrp.service.Service'):
        if class_const(ctx, cls, 'service_name') == 'accesstoken':
            r = ctx.run(cls.dotted + '.update_service_context')
            for o in r.returns if r else ():
                types = [strip(arg(e, 'item_type', 1)) for _, e, _ in calls(o, 'store_item')]
                ctx.ob('C15.refresh', types == [C('token_response')], r.func, 'store_item', 'stored as {}'.format(
                    [shows(t) for t in types]))


def newest(ctx):
    ctx.rule('C15.newest', 'a refresh is made with the newest refresh token of the session, unless one is given', 4)
    old = dct({'refresh_token': 'old', 'scope': 's'})
    new = dct({'refresh_token': 'new', 'access_token': 'a2'})
    kept = {'both': dct({'token_response': old, 'refresh_token_response': new}), 'old': dct({'token_response': old}),
            'new': dct({'refresh_token_response': new}), 'bare': dct({'token_response': old, 'refresh_token_response': dct({'access_token': 'a2'})})}
    wanted = {'both': 'new', 'old': 'old', 'new': 'new', 'bare': 'old'}
    for cls in ctx.prog.subclasses('oidcrp.service.Service'):
        if class_const(ctx, cls, 'service_name') != 'refresh_token':
            continue
        for m in ('oauth_pre_construct', 'cc_pre_construct', 'oidc_pre_construct'):
            f = ctx.prog.find_method(cls, m)
            if f is None:
                continue
            for what, st in kept.items():
                for given in (None, 'mine'):
                    args = {'request_args': C(None) if given is None else dct({'refresh_token': given}), 'kwargs': dct({'state': 'state1'})}
                    r = ctx.run(f.dotted, args=args, results={'get_state': st}, transparent={'extend_request_args', 'multiple_extend_request_args', 'get_item'},
                                never_raise={'get_state'}, keep=lambda a: False,
                                given={('attr', at(SELF, 'msg_type'), 'c_param'): c_param({'refresh_token': (0, 1), 'scope': (0, 0)})})
                    for o in r.returns if r else ():
                        v = strip(r.value(o))
                        ra = v[1][0] if v[0] == 'tup' and v[1] else v
                        for _, t in r.get(o, ra, 'refresh_token'):
                            ctx.ob('C15.newest', t is not None and strip(t) == C(given or wanted[what]), r.func, what + (' given' if given else ''),
                                   'the refresh token is {} where the session has {}{}'.format(shows(t), what, ' and one is given' if given else ''))
