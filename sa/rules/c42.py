"""Every answer that is accepted for a session is put on its record, as a whole and under the kind it is looked up by."""
from ..q import *
from ..terms import C, contains, is_const

KIND = {'authorization': 'auth_response', 'accesstoken': 'token_response', 'refresh_token': 'refresh_token_response', 'userinfo': 'user_info'}
RESP = sym('resp')
KEY = sym('key')
COPY = ('to_json', 'to_dict', 'copy', 'deepcopy', 'dict', 'dumps', 'loads', 'from_dict')
SI = 'oidcrp.state_interface.StateInterface'


def check(ctx):
    ctx.rule('C42.recorded', 'an accepted answer is stored once, as a whole, for its session and as what it is', 8)
    ctx.rule('C42.judged', 'an authorization response that was accepted is recorded before it is returned', 1)
    ctx.rule('C42.store', 'what is stored is in the record from then on, beside what is there already', 2)
    services(ctx)
    userinfo(ctx)
    judged(ctx)
    store(ctx)
    handed(ctx)


def whole(t, what):
    """the answer itself or a complete copy of it, to which only the time of expiry may have been added"""
    if t == what:
        return True
    if t[0] == 'obj':
        if any(op[0] not in ('upd', 'set') or op[0] == 'set' and strip(op[1]) != C('__expires_at') for op in t[4]):
            return False
        if t[3] is not None or t[2] is not None:
            return whole(strip(t[3] if t[3] is not None else t[2]), what)
        return any(op[0] == 'upd' and whole(strip(op[1]), what) for op in t[4])
    if is_call(t) and callname(t) in COPY:
        r = recv(t)
        if callname(t) in ('to_json', 'to_dict', 'copy') and r is not None and whole(strip(r), what):
            return True
        return any(whole(strip(x), what) for x in t[2]) or any(n == '**' and whole(strip(x), what) for n, x in t[3])
    return base_of(t) == what and not (t[0] == 'obj')


def services(ctx):
    for cls in ctx.prog.subclasses('oidcrp.service.Service'):
        kind = KIND.get(class_const(ctx, cls, 'service_name'))
        if kind is None or kind == 'user_info':
            continue
        f = ctx.prog.find_method(cls, 'update_service_context')
        r = f and ctx.run(f.dotted)
        for o in r.returns if r else ():
            st = [e for _, e, _ in calls(o, 'store_item')]
            mine = [e for e in st if strip(arg(e, 'item_type', 1, C(None))) == C(kind)]
            if not ctx.ob('C42.recorded', len(mine) == 1 and len(st) == 1, r.func, kind, 'the answer is stored {} times, {} of them as {}'.format(len(st), len(mine), kind)):
                continue
            e = mine[0]
            v = strip(r.eng.freeze(o.state, arg(e, 'item', 0, C(None))))
            ctx.ob('C42.recorded', whole(v, RESP), r.func, 'item', 'what is stored is {}'.format(shows(v)), e.line)
            ctx.ob('C42.recorded', strip(arg(e, 'key', 2, C(None))) == KEY, r.func, 'key', 'stored for ' + shows(arg(e, 'key', 2)), e.line)
            ctx.ob('C42.recorded', is_store(strip(e.recv)), r.func, 'store', 'stored in ' + shows(e.recv), e.line)


def userinfo(ctx):
    for cls in ctx.prog.subclasses('oidcrp.service.Service'):
        if class_const(ctx, cls, 'service_name') != 'userinfo':
            continue
        f = ctx.prog.find_method(cls, 'post_parse_response')
        if f:
            processed(ctx, f)
        for claims in ({'sub': 'me', 'name': 'x'}, {'sub': 'me', '_claim_names': dct({'a': 's'}), '_claim_sources': dct({'s': dct({'endpoint': 'https://s'})})}):
            answer = dct(claims)
            r = f and ctx.run(f.dotted, args={'response': answer, 'kwargs': dct({'state': sym('the state')})}, keep=lambda a: False,
                              given={('attr', SELF, 'post_parse_process'): lst()})
            for o in r.returns if r else ():
                st = [e for _, e, _ in calls(o, 'store_item')]
                if not ctx.ob('C42.recorded', len(st) == 1, r.func, 'user_info', 'user info is stored {} times'.format(len(st))):
                    continue
                e = st[0]
                kind, key = strip(arg(e, 'item_type', 1, C(None))), strip(arg(e, 'key', 2, C(None)))
                ctx.ob('C42.recorded', kind == C('user_info') and key == sym('the state'), r.func, 'key', 'stored as {} for {}'.format(shows(kind), shows(key)), e.line)
                for k in claims:
                    for _, v in r.get(o, arg(e, 'item', 0, C(None)), k):
                        v = v if v is None else strip(r.eng.freeze(o.state, v))
                        want = dict((op[1][2], op[2]) for op in answer[4])[k]
                        ctx.ob('C42.recorded', v is not None and (v == want or base_of(v) == want), r.func, k, '{} on record is {}'.format(k, shows(v)), e.line)


def judged(ctx):
    for name in impls(ctx, 'oidcrp.rp_handler.RPHandler', 'finalize_auth'):
        r = ctx.run(name, keep=lambda a: a[0] == 'in' and a[1] == C('error'))
        for o in r.returns if r else ():
            p = [strip(e.res) for _, e, _ in calls(o, 'parse_response')]
            if not p or known_in(r, o.facts, 'error', p[-1]) is not False:
                continue
            state = it(p[-1], 'state')
            done = [e for _, e, _ in calls(o, 'update_service_context')
                    if strip(arg(e, 'resp', 0, C(None))) == p[-1] and strip(arg(e, 'key', 1, C(None))) == state]
            ctx.ob('C42.judged', len(done) == 1, r.func, 'update_service_context', 'an accepted response is recorded {} times by its service'.format(len(done)))


def store(ctx):
    """the item ends up in the record under its kind, and the record in the database under the key"""
    kinds = sorted(KIND.values()) + ['auth_request', 'pkce']
    for name in impls(ctx, SI, 'store_item'):
        for kind in kinds:
            for had in (False, True):
                stored(ctx, name, kind, had)


def stored(ctx, name, kind, had):
    old = {'iss': 'https://op', 'some': 'other'}
    if had:
        old[kind] = 'older'
    for item in (dct({'code': 'c'}), C('{"code": "c"}')):
        r = ctx.run(name, args={'item': item, 'item_type': C(kind), 'key': C('S')}, results={'get_state': dct(old)}, never_raise={'get_state'},
                    keep=lambda a: False)
        for o in r.returns if r else ():
            put = [e for _, e, _ in events(o, 'setitem') if strip(e.args[0]) == C('S')] + [
                e for _, e, _ in calls(o, 'set') if strip(arg(e, 'key', 0, C(None))) == C('S')]
            if not ctx.ob('C42.store', len(put) == 1, r.func, kind, 'the record is put back {} times'.format(len(put))):
                continue
            v = put[0].args[1] if put[0].kind == 'setitem' else arg(put[0], 'value', 1, C(None))
            v = strip(v)
            rec = recv(v) if is_call(v) and callname(v) in ('to_json', 'to_dict') else None
            if rec is None:
                ctx.unclear('the record is put back as ' + shows(v)[:60])
                continue
            for k, want in (('iss', C('https://op')), ('some', C('other')), (kind, None)):
                for _, x in r.get(o, rec, k):
                    x = x if x is None else strip(r.eng.freeze(o.state, x))
                    ok = x is not None and (x == want if want else contains(x, lambda t: t == C('c')) or contains(x, lambda t: t == C('{"code": "c"}')))
                    ctx.ob('C42.store', ok, r.func, k if want else kind, '{} of the record is {}'.format(k, shows(x)), put[0].line)


def processed(ctx, f):
    """what the configured steps made of user info is what is recorded"""
    step = sym('the step')
    r = ctx.run(f.dotted, args={'response': dct({'sub': 'me'}), 'kwargs': dct({'state': sym('the state')})}, keep=lambda a: False,
                given={('attr', SELF, 'post_parse_process'): lst(step)})
    for o in r.returns if r else ():
        for _, e, _ in calls(o, 'store_item'):
            v = arg(e, 'item', 0, C(None))
            made = [c for _, c, _ in events(o, 'call') if is_call(c.res) and c.res[1] == step]
            ctx.ob('C42.recorded', len(made) == 1 and strip(made[0].res) == strip(v), r.func, 'post_parse_process',
                   'what the configured step made is not what is recorded: ' + shows(v), e.line)


def handed(ctx):
    """the session that an answer is recorded for is the one the request was made for"""
    ctx.rule('C42.session', 'an answer is handed to its service, for the session of the request and no other, to be recorded', 2)
    for m in impls(ctx, 'oidcrp.oauth2.Client', 'service_request'):
        for resp in ({'access_token': 'A', 'state': 'another'}, {'access_token': 'A'}, {'sub': 'S', 'key': 'another'}):
            r = ctx.run(m, args={'service': sym('service'), 'kwargs': dct({'state': 'the state'})}, keep=lambda a: False, opaque={'get_response', 'get_response_ext'},
                        results={'get_response': dct(resp), 'get_response_ext': dct(resp)})
            for o in r.returns if r else ():
                done = calls(o, 'update_service_context')
                ctx.ob('C42.session', len(done) == 1, r.func, 'update_service_context', 'an answer is handed over {} times'.format(len(done)))
                for _, e, _ in done:
                    k = [v for n, v in e.kw if n == 'key'] or [x for n, v in e.kw if n == '**' for _, x in r.get(o, v, 'key')] or list(e.args[1:2])
                    k = strip(k[0]) if k and k[0] is not None else C(None)
                    if is_const(k):
                        ctx.ob('C42.session', k == C('the state'), r.func, 'key', 'an answer is recorded for {}'.format(shows(k)), e.line)
                    else:
                        ctx.unclear('{}: key {}'.format(m, shows(k)))
    for m in impls(ctx, 'oidcrp.oauth2.Client', 'do_request'):
        srv = sym('the service')
        for ra in ({'a': 'b'}, None):
            r = ctx.run(m, args={'request_type': C('x'), 'request_args': C(None) if ra is None else dct(ra), 'kwargs': dct({'state': 'the state'})}, keep=lambda a: False,
                        opaque={'service_request', 'get_request_parameters'}, results={'get_request_parameters': dct({'url': 'u', 'method': 'GET'})},
                        given={('attr', SELF, '_service'): dct({'x': srv})})
            for o in r.returns if r else ():
                for _, e, _ in calls(o, 'service_request'):
                    k = [v for n, v in e.kw if n == 'state'] or [x for n, v in e.kw if n == '**' for _, x in r.get(o, v, 'state')]
                    k = strip(k[0]) if k and k[0] is not None else C(None)
                    if is_const(k):
                        ctx.ob('C42.session', k == C('the state'), r.func, 'state', 'a request is sent for the session {}'.format(shows(k)), e.line)
                    else:
                        ctx.unclear('{}: state {}'.format(m, shows(k)))
