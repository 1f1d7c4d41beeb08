"""User info is only accepted for the subject of the ID Token."""
from ..messages import kinds
from ..q import *
from ..terms import C, show

UI = 'oidcrp.oidc.userinfo.UserInfo.'


def id_token_of(t, key):
    """the ID Token held for a session"""
    t = strip(t)
    if t[0] != 'item' or not is_const(t[2]) or t[2][2] not in ('id_token', '__verified_id_token'):
        return False
    src = t[1]
    if is_call(src, 'multiple_extend_request_args', 'extend_request_args'):
        return recv(src) == STORE and session_key(src) == key and KINDS <= looked_in(src)
    s = sess(src)
    return bool(s) and s[0] == STORE and strip(s[1]) == key


def session_key(src):
    return strip(callarg(src, 'key', 3 if callname(src) == 'extend_request_args' else 1))


KINDS = {'auth_response', 'token_response', 'refresh_token_response'}


def looked_in(src):
    """the kinds of responses an item is looked for in"""
    res = set()
    while is_call(src, 'multiple_extend_request_args', 'extend_request_args'):
        many = callname(src) == 'multiple_extend_request_args'
        kinds = callarg(src, 'item_types' if many else 'item_type', 3 if many else 2)
        if kinds is None:
            return res
        if not constants(kinds) and not is_const(strip(kinds)):
            return KINDS                    # not known here
        res |= {x for x in KINDS if mentions(kinds, C(x))}
        src = base_of(strip(callarg(src, 'args', 0) or C(None)))
    return res


def sub_atom(a):
    return mentions(a, C('sub')) or mentions(a, C('id_token')) or mentions(a, C('__verified_id_token'))


def check(ctx):
    ctx.rule('C06.kind', 'user info is verified as such', 1)
    kinds(ctx, 'C06.kind', only=('UserInfo',))
    compare(ctx)
    merged(ctx)
    session(ctx)


def compare(ctx):
    ctx.rule('C06.sub', 'user info is returned and recorded only when its subject is known to equal that of the ID Token held '
             'for the session, or none is held')
    ctx.rule('C06.recorded', 'user info is recorded under the session it was requested for')
    ctx.rule('C06.kept', 'nothing replaces the subject of the user info after it was compared')
    r = ctx.run(UI + 'post_parse_response', keep=sub_atom)
    if r is None:
        return
    resp = sym('response')
    key = it(KW, 'state')

    def good(facts):
        for a, p in facts.items():
            x = [strip(y) for y in a[1:] if isinstance(y, tuple)]
            if a[0] == 'eq' and p:
                for b, c in ((x[0], x[1]), (x[1], x[0])):
                    if base_of(b) != b and b[0] == 'item':
                        pass
                    if b == it(resp, 'sub') and c[0] == 'item' and c[2] == C('sub') and id_token_of(c[1], key):
                        return True
            elif a[0] == 'in' and not p:
                if id_token_of(('item', x[1], x[0]), key) or x[0] == C('sub') and id_token_of(x[1], key):
                    return True
            elif a[0] in ('T', 'none') and p == (a[0] == 'none') and id_token_of(x[0], key):
                return True
        return False
    for o in r.outs:
        for _, e, f in effects(o):
            if e.kind == 'call':
                ctx.ob('C06.sub', good(f), r.func, e.name, 'recorded without the subjects having been compared', line=e.line)
            if e.name == 'store_item':
                ok = strip(arg(e, 'key', 2)) == key and arg(e, 'item_type', 1) == C('user_info') and e.recv == STORE
                ctx.ob('C06.recorded', ok, r.func, 'store_item', 'recorded as {} of {}'.format(
                    show(arg(e, 'item_type', 1)), show(arg(e, 'key', 2))), line=e.line)
                ok = base_of(strip(arg(e, 'item', 0))) == resp or foreign(strip(arg(e, 'item', 0)), resp)
                ctx.ob('C06.recorded', ok, r.func, 'item', 'records ' + show(arg(e, 'item', 0)), line=e.line)
        if o.kind == 'return':
            v = r.value(o)
            ctx.ob('C06.sub', base_of(v) == resp or foreign(v, resp), r.func, 'result', 'returns ' + show(v))
            ctx.ob('C06.sub', good(o.facts), r.func, 'result', 'returned without the subjects having been compared')
            ctx.ob('C06.recorded', bool(calls(o, 'store_item')), r.func, 'store_item', 'user info is not recorded')
    no_sub_change(ctx, r, resp)


def foreign(v, resp):
    """result of a configured extension applied to the response"""
    return v[0] == 'call' and contains(v[1], lambda t: t[0] == 'elem' and mentions(t, ('attr', SELF, 'post_parse_process'))) \
        and any(mentions(strip(a), resp) for a in v[2])


def no_sub_change(ctx, r, resp):
    for o in r.outs:
        for _, e, f in events(o, 'setitem', 'update', 'delitem'):
            if base_of(strip(e.recv)) != resp:
                continue
            if e.kind == 'update':
                for x in e.args:
                    ctx.ob('C06.kept', False, r.func, 'update', 'everything in {} is merged'.format(show(x)), line=e.line)
                continue
            k = strip(e.args[0])
            ok = k[2] != 'sub' if is_const(k) else f.get(r.eng.norm_atom(('eq', k, C('sub')))) is False
            ctx.ob('C06.kept', ok, r.func, 'claim', 'the claim set may be the subject', line=e.line)


def merged(ctx):
    r = ctx.run('oidcrp.oidc.RP.fetch_distributed_claims')
    if r is None:
        return
    no_sub_change(ctx, r, sym('userinfo'))
    for o in r.returns:
        ctx.ob('C06.kept', base_of(r.value(o)) == sym('userinfo'), r.func, 'result', 'returns ' + show(r.value(o)))


def session(ctx):
    ctx.rule('C06.session', 'the state a request is made for is the one its response is processed with')
    cl = 'oidcrp.oauth2.Client.'
    r = ctx.run(cl + 'do_request')
    if r:
        for o in r.outs:
            for _, e, _ in calls(o, 'service_request'):
                for s, v in kwval(e, 'state', r.eng, o.state):
                    ok = v == it(KW, 'state') or known_in(r, s.facts, 'state', KW) is False or own_request(v)
                    ctx.ob('C06.session', ok, r.func, 'state', 'state is ' + shows(v), line=e.line)
    r = ctx.run(cl + 'service_request')
    if r:
        for o in r.outs:
            for _, e, _ in calls(o, 'get_response'):
                ctx.ob('C06.session', any(n == '**' and base_of(strip(v)) == KW for n, v in e.kw) or
                       strip(arg(e, 'state') or ()) == it(KW, 'state'), r.func, 'get_response', 'the state is not passed on',
                       line=e.line)
    r = ctx.run(cl + 'get_response')
    if r:
        for o in r.outs:
            for _, e, _ in calls(o, 'parse_request_response'):
                ctx.ob('C06.session', any(n == '**' and base_of(strip(v)) == KW for n, v in e.kw) or
                       strip(arg(e, 'state') or ()) == it(KW, 'state'), r.func, 'parse_request_response',
                       'the state is not passed on', line=e.line)
    r = ctx.run(cl + 'parse_request_response')
    if r:
        for o in r.returns:
            v = r.value(o)
            if is_call(base_of(v), 'parse_response') and base_of(v) == v:
                ctx.ob('C06.session', callarg(v, 'state', 2) == sym('state'), r.func, 'parse_response',
                       'processed with state ' + shows(callarg(v, 'state', 2)))
    r = ctx.run('oidcrp.service.Service.parse_response', watch=lambda e: e.name == 'post_parse_response')
    if r:
        for o in r.outs:
            for _, e, _ in calls(o, 'post_parse_response'):
                ctx.ob('C06.session', arg(e, 'state') == sym('state'), r.func, 'post_parse_response',
                       'processed with state ' + shows(arg(e, 'state')), line=e.line)
    r = ctx.run('oidcrp.rp_handler.RPHandler.get_user_info')
    if r:
        for o in r.outs:
            for _, e, _ in calls(o, 'do_request'):
                ctx.ob('C06.session', arg(e, 'state') == sym('state') and arg(e, 'request_type', 0) == C('userinfo'), r.func,
                       'do_request', 'asked for with state ' + shows(arg(e, 'state')), line=e.line)
