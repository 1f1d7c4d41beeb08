"""Nothing that has expired is treated as valid."""
from ..patching import earlier, names_in
from ..q import *
from ..terms import C, show

RH = 'oidcrp.rp_handler.RPHandler.'
CLOCK = ('utc_time_sans_frac', 'time_sans_frac', 'time', 'timestamp', 'epoch_in_a_while')
RESPONSES = ('auth_response', 'token_response', 'refresh_token_response')


def is_now(t):
    t = strip(t)
    if is_call(t, 'int') and t[2]:
        t = strip(t[2][0])
    return is_call(t, *CLOCK) and not t[2]


def check(ctx):
    stored(ctx)
    token(ctx)
    active(ctx)
    secret(ctx)
    ctx.rule('C14.now', 'the time is that of the call', 3)
    earlier(ctx, 'C14.now', lambda f: any('time_sans_frac' in x or x in ('time', 'is_active', 'is_expired') for x in names_in(f.node)), ('time', 'now', 'date'))


def stored(ctx):
    ctx.rule('C14.stored', 'every response with a lifetime is stored with current time plus that lifetime as expiry')
    exp_atom = lambda a: a[0] == 'in' and a[1] == C('expires_in')  # noqa: E731
    for name in impls(ctx, 'oidcrp.service.Service', 'update_service_context'):
        r = ctx.run(name, keep=exp_atom)
        for o in r.returns if r else ():
            for _, e, f in calls(o, 'store_item'):
                typ = strip(arg(e, 'item_type', 1))
                if not is_const(typ) or typ[2] not in RESPONSES:
                    continue
                item = r.eng.freeze(o.state, arg(e, 'item', 0))
                if is_call(strip(item), 'to_json', 'to_dict'):
                    item = recv(strip(item))
                root = base_of(strip(item))
                have = known_in(r, f, 'expires_in', root)
                for s, x in r.get(o, item, '__expires_at'):
                    if x is not None and x != it(root, '__expires_at'):
                        ok = x[0] == 'op' and x[1] == 'Add' and any(is_now(y) for y in x[2]) and \
                            any(life(strip(y)) == it(root, 'expires_in') for y in x[2])
                    else:
                        # none given, or one that is nothing
                        ok = have is False or r.eng.decide(s, ('none', it(root, 'expires_in'))) is True
                    ctx.ob('C14.stored', ok, r.func, '__expires_at', 'expiry stored is ' + shows(x), e.line)


def life(t):
    return strip(t[2][0]) if is_call(t, 'int', 'float') and t[2] else t


def after_now(r, facts, exp, strict=True):
    """the time is known to lie in the future"""
    for a, p in facts.items():
        if a[0] == 'lt':
            x, y = strip(a[1]), strip(a[2])
            if p and is_now(x) and y == exp:
                return True
            if not p and not strict and x == exp and is_now(y):
                return True
    return False


def cmp_atom(a):
    return a[0] == 'lt' and contains(('x',) + a, lambda t: is_call(t, *CLOCK)) or a[:2] == ('in', C('__expires_at'))


def token(ctx):
    ctx.rule('C14.token', 'an access token is handed out only if it has no expiry or that is in the future')
    ctx.rule('C14.none', 'there is an exception when there is no valid token')
    ctx.rule('C14.same', 'token and expiry are from the same response of the session asked for')
    r = ctx.run(RH + 'get_valid_access_token', keep=cmp_atom, max_steps=40000)
    if r is None:
        return
    for o in r.returns:
        v = r.value(o)
        ok = v[0] == 'tup' and len(v[1]) == 2
        if not ctx.ob('C14.token', ok, r.func, 'result', 'returns ' + show(v)):
            continue
        tok, exp = strip(v[1][0]), strip(v[1][1])
        ok = tok[0] == 'item' and tok[2] == C('access_token')
        src = sess(tok[1]) if ok else None
        ctx.ob('C14.same', bool(src) and strip(src[1]) == sym('state') and src[2] in RESPONSES, r.func, 'token',
               'token is ' + show(tok))
        if exp == it(tok[1], '__expires_at'):
            ok = after_now(r, o.facts, exp)
        else:
            ok = exp == C(0) and known_in(r, o.facts, '__expires_at', tok[1]) is False
        ctx.ob('C14.token', ok, r.func, 'expiry', 'token {} may have expired'.format(show(tok)))
    ctx.ob('C14.none', bool(r.raises), r.func, 'raise', 'no exception without a valid token')


def active(ctx):
    ctx.rule('C14.active', "an authentication is active only while the ID Token's expiry is in the future")
    r = ctx.run(RH + 'has_active_authentication', keep=cmp_atom)
    for o in r.returns if r else ():
        v = r.value(o)
        if v == C(False) or v == C(None):
            continue
        exp = [strip(a[2]) for a, p in o.facts.items() if a[0] == 'lt' and p and is_now(a[1])]
        if v[0] == 'op' and v[1] == 'Lt' and is_now(v[2][0]):
            exp.append(strip(v[2][1]))
        elif v[0] == 'op' and v[1] == 'Gt' and is_now(v[2][1]):
            exp.append(strip(v[2][0]))
        ok = any(x[0] == 'item' and x[2] == C('exp') and contains(x[1], lambda t: t == C('__verified_id_token'))
                 and contains(x, lambda t: t == sym('state')) for x in exp)
        ctx.ob('C14.active', ok, r.func, 'expiry', 'returns {} without a valid ID Token'.format(show(v)))


def secret(ctx):
    ctx.rule('C14.secret', 'a client secret is valid only if its expiry is zero or not passed')
    eta = at(sym('service_context'), 'client_secret_expires_at')

    def keep(a):
        return mentions(('x',) + a, eta) or mentions(('x',) + a, when)
    when = sym('when')
    r = ctx.run('oidcrp.client_auth.valid_service_context', keep=keep)
    for o in r.returns if r else ():
        v = r.value(o)
        if v == C(False):
            continue
        f = o.facts
        zero = known_eq(f, eta, C(0), r.eng) or truthy(f, r.eng, eta) is False

        def now(t):
            t = strip(t)
            if t == when:           # the default means now
                return truthy(f, r.eng, when) is True or known_ne(f, when, C(0), r.eng) or \
                    fact(f, r.eng, 'none', when) is False
            return is_now(t) or contains(t, lambda x: is_call(x, *CLOCK)) and t[0] in ('op', 'or', 'ite')
        later = any(a[0] == 'lt' and (not p and strip(a[1]) == eta and now(a[2]) or p and strip(a[2]) == eta and now(a[1]))
                    for a, p in f.items())
        ctx.ob('C14.secret', zero or later, r.func, 'expiry', 'returns {} for an expired secret'.format(show(v)))
    for o in r.returns if r else ():
        if strip(r.value(o)) == C(False):
            ctx.ob('C14.secret', known_ne(o.facts, eta, C(0), r.eng) or truthy(o.facts, r.eng, eta) is True, r.func, 'zero',
                   'a secret that never expires is not valid')
