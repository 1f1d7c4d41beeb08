"""Only a successful HTTP answer can change what the client knows."""
from ..q import *
from ..terms import C

CLIENT = 'oidcrp.oauth2.Client'
RANGE = range(100, 600)
CHANGING = ('update_service_context',) + STORING


def is_status(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'attr' and t[2] == 'status_code'


def status_atom(a):
    return contains(('x',) + a, is_status) or contains(('x',) + a, lambda t: t == C('error')) or \
        contains(('x',) + a, lambda t: t == C('html'))


def codes(facts, x):
    return [n for n in RANGE if admits(facts, x, n)]


def some(ns):
    return ','.join(map(str, ns[:3])) + ('...' if len(ns) > 3 else '')


def check(ctx):
    answer(ctx)
    request(ctx)
    nothing_else(ctx)


def answer(ctx):
    ctx.rule('C18.success', 'only a 2xx answer yields a response that is not an error')
    ctx.rule('C18.redirect', 'a redirect is handed back as what it is')
    ctx.rule('C18.client_error', 'a 4xx answer yields an error message with the status code, or an exception')
    ctx.rule('C18.server_error', '5xx and unexpected answers are exceptions')
    ctx.rule('C18.transport', 'a failure to send is an exception')
    for name in impls(ctx, CLIENT, 'get_response'):
        r = ctx.run(name, transparent={'parse_request_response'}, keep=status_atom)
        if r is None:
            continue
        seen = set()
        for o in r.returns:
            sent = [strip(e.res) for _, e, _ in events(o, 'call')
                    if e.name == 'http' or e.recv is not None and strip(e.recv)[0] == 'attr' and strip(e.recv)[2] == 'http']
            if not ctx.ob('C18.transport', len(sent) == 1, r.func, 'http', 'returns although nothing was received'):
                continue
            resp = sent[0]
            st = at(resp, 'status_code')
            ns = codes(o.facts, st)
            if not ns:
                continue
            v = r.value(o)
            b = base_of(v)
            keys = keys_of(v)[0] if v[0] == 'obj' else set()
            if 'http_response' in keys:
                for _, x in r.get(o, v, 'http_response'):
                    ctx.ob('C18.redirect', x == resp, r.func, 'http_response', 'holds ' + shows(x))
                bad = [n for n in ns if n < 300 or n >= 400]
                ctx.ob('C18.redirect', not bad, r.func, 'redirect', 'status {} is taken for a redirect'.format(some(bad)))
                seen.update(ns)
                continue
            if is_err(r, o, v):
                ctx.ob('C18.client_error', v[0] != 'obj' or not [op for op in all_ops(v) if op[0] == 'clear' or op[:2] == ('del', C('error'))],
                       r.func, 'error', 'the error is taken out of the message')
                for _, x in r.get(o, v, 'status_code'):
                    ctx.ob('C18.client_error', x == st or x is not None and is_const(x) and ns == [x[2]],
                           r.func, 'status_code', 'status code in the message is ' + shows(x))
                bad = [n for n in ns if not 400 <= n < 500]
                ctx.ob('C18.server_error', not bad, r.func, 'error', 'status {} yields an error message only'.format(some(bad)))
                continue
            ok = b == at(resp, 'text') or is_call(b, 'parse_response')
            ctx.ob('C18.success', ok, r.func, 'result', 'returns ' + shows(v))
            if b == at(resp, 'text'):
                ok = any(p is True and a[0] == 'eq' and mentions(('x',) + a, C('html')) for a, p in o.facts.items())
                ctx.ob('C18.success', ok, r.func, 'text', 'the body is returned without being parsed and verified')
            bad = [n for n in ns if not 200 <= n < 300]
            # nothing below 200 is ever handed over by a HTTP library
            bad = [n for n in bad if n >= 200]
            ctx.ob('C18.success', not bad, r.func, 'status', 'status {} yields a response: {}'.format(some(bad), shows(v)[:80]))
            seen.update(ns)
        for n in (200, 201):
            ctx.ob('C18.success', n in seen, r.func, str(n), 'a {} answer is never a response'.format(n))
        bad = [n for n in range(300, 400) if n not in seen]
        ctx.ob('C18.redirect', not bad, r.func, 'redirect', 'status {} is not recognised'.format(some(bad)))


def is_err(r, o, v):
    """known to be an error message"""
    if v[0] == 'obj' and v[3] is None and 'error' in keys_of(v)[0]:
        return True
    return is_error(o.facts, r.eng, base_of(v)) is True


def request(ctx):
    ctx.rule('C18.stored', 'what is stored is the response, when neither an error nor a redirect, once, for its session')
    ctx.rule('C18.same', 'the response is returned as it is')
    for name in impls(ctx, CLIENT, 'service_request'):
        r = ctx.run(name, keep=lambda a: a[0] == 'in' and a[1] in (C('error'), C('http_response'), C('state')))
        for o in r.outs if r else ():
            got = [e for _, e, _ in calls(o, 'get_response', 'get_response_ext')]
            upd = calls(o, *CHANGING)
            resp = strip(got[-1].res) if got else None
            for _, e, f in upd:
                ctx.ob('C18.stored', bool(got) and strip(arg(e, 'resp', 0, C(None))) == resp, r.func, 'response',
                       'stores ' + shows(arg(e, 'resp', 0)), e.line)
                for k in ('error', 'http_response'):
                    ctx.ob('C18.stored', known_in(r, f, k, resp) is False, r.func, k,
                           'stores what may be an error or a redirect', e.line)
                ctx.ob('C18.stored', strip(e.recv) == sym('service'), r.func, 'service', 'stored by ' + shows(e.recv), e.line)
                for s, x in kwval(e, 'key', r.eng, o.state):
                    given = known_in(r, s.facts, 'state', KW)
                    ok = x == it(KW, 'state') if given else given is False and x in (None, it(KW, 'key'), C(''), C(None))
                    ctx.ob('C18.stored', ok, r.func, 'key', 'stored under ' + shows(x), e.line)
            ctx.ob('C18.stored', len(upd) <= 1, r.func, 'once', 'stored {} times'.format(len(upd)))
            if o.kind != 'return':
                continue
            ctx.ob('C18.same', got and base_of(r.value(o)) == resp, r.func, 'return', 'returns ' + shows(r.value(o)))
            if not upd:
                ok = known_in(r, o.facts, 'error', resp) or known_in(r, o.facts, 'http_response', resp)
                ctx.ob('C18.stored', ok is True, r.func, 'missing', 'a response is not stored')
            for _, e, f in calls(o, 'get_response', 'get_response_ext'):
                for i, (n, w) in enumerate((('service', 'service'), ('url', 'url'), ('method', 'method'), ('body', 'body'),
                                            ('response_body_type', 'response_body_type'))):
                    if e.name == 'get_response_ext':
                        if not i:
                            continue
                        i -= 1
                    x = strip(arg(e, n, i, C(None)))
                    ctx.ob('C18.same', x == sym(w), r.func, n, 'sends {} {}'.format(n, shows(x)), e.line)
    for name in impls(ctx, CLIENT, 'do_request'):
        r = ctx.run(name)
        for o in r.returns if r else ():
            c = calls(o, 'service_request')
            ok = c and r.value(o) == strip(c[-1][1].res)
            ctx.ob('C18.same', bool(ok), r.func, 'return', 'returns ' + shows(r.value(o)))
            for _, e, f in c:
                for s, x in kwval(e, 'state', r.eng, o.state):
                    have = known_in(r, s.facts, 'state', KW)
                    ok = own_request(x) or (x == it(KW, 'state') if have else have is False and x == C(''))
                    ctx.ob('C18.stored', ok, r.func, 'state', 'the session is ' + shows(x), e.line)
                x = strip(arg(e, 'service', 0, C(None)))
                ctx.ob('C18.same', x[0] == 'item' and x[2] == sym('request_type') and x[1] == at(SELF, '_service'),
                       r.func, 'service', 'the service is ' + shows(x), e.line)


def nothing_else(ctx):
    ctx.rule('C18.only', 'answers are stored by the function that judged them')
    found = {}
    for name in owners(ctx, 'update_service_context'):
        found[name] = 1
    ok = set()
    for base, m in ((CLIENT, 'service_request'),):
        ok |= set(impls(ctx, base, m)) | {ctx.prog.func(n).dotted for n in impls(ctx, base, m)}
    for name in found:
        if name in ok:
            ctx.ob('C18.only', True, name, 'update_service_context')
            continue
        r = ctx.run(name)
        for o in r.outs if r else ():
            for _, e, f in calls(o, 'update_service_context'):
                # a call of the parent class's method is part of the same update
                inner = name.endswith('.update_service_context')
                src = strip(arg(e, 'resp', 0, C(None)))
                fine = inner or not contains(src, lambda t: is_call(t, 'http', 'send', 'get_response', 'request'))
                ctx.ob('C18.only', fine, name, 'update_service_context', 'stores ' + shows(src), e.line)
