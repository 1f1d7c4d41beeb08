"""No service response is returned as a success before it has been verified."""
from ..messages import kinds
from ..patching import replaced
from ..q import *
from ..terms import C, show

SERVICE = 'oidcrp.service.Service'
JOSE = ('jose', 'jws', 'jwe')


def check(ctx):
    ctx.rule('C03.kind', 'responses are verified as what they are responses of', 1)
    kinds(ctx, 'C03.kind')
    ctx.rule('C03.verified', 'parse_response: a returned response that is not an error is the result of the service\'s post '
             'processing of the parsed message, after that message was verified and not found wanting')
    ctx.rule('C03.args', 'parse_response: the message is verified with the verification arguments of the service')
    ctx.rule('C03.parsed', 'parse_response: the message is parsed into the response type of the service')
    ctx.rule('C03.jose', 'parse_response: only a response that is a JOSE object goes to the post processing as it is')
    ctx.rule('C03.empty', 'parse_response: an empty result is never returned')
    targets = [SERVICE + '.parse_response']
    for cls in ctx.prog.subclasses(SERVICE):
        if 'parse_response' in cls.methods and cls.dotted != SERVICE:
            targets.append(cls.dotted + '.parse_response')
    for t in targets:
        parse_response(ctx, t)
    caller(ctx)
    ctx.rule('C03.used', 'finalize_auth: what is returned and recorded is what the service made of the response', 3)
    answered(ctx, 'C03.used')
    ctx.rule('C03.library', 'no module replaces a part of another module or class, so that what verifies is what was written to', 30)
    for m in ctx.prog.repo_modules:
        for line, what in replaced(ctx.prog, m):
            ctx.ob('C03.library', False, m.name, what, what + ' is replaced', line)
        ctx.ob('C03.library', True, m.name, 'module', '')


def jose_atom(a):
    return a[0] in ('eq', 'in') and any(mentions(a, C(x)) for x in JOSE)


def parse_response(ctx, dotted):
    r = ctx.run(dotted, keep=jose_atom, watch=lambda e: e.name not in ('get_sign_alg', 'get_enc_alg_enc'))
    if r is None:
        return
    info = sym('info')
    for o in r.returns:
        v = r.value(o)
        ctx.ob('C03.empty', truthy(o.facts, r.eng, v) is True, r.func, 'result', 'may return an empty response')
        if is_call(v, 'post_parse_response') and recv(v) == SELF:
            msg = strip(callarg(v, 'response', 0))
            ctx.ob('C03.verified', known_state(callargs(v)), r.func, 'state', 'post processing does not get the state')
            if not parsed(msg):
                ok = msg == info and any(p and jose_atom(a) for a, p in o.facts.items())
                ctx.ob('C03.jose', ok, r.func, 'post_parse_response', 'unverified {} is post processed'.format(show(msg)))
                continue
            ver = [(i, e) for i, e, _ in calls(o, 'verify') if strip(e.res)[0] == 'call' and recv(strip(e.res)) == msg]
            ctx.ob('C03.verified', bool(ver) and any(accepted(r, o, e) for _, e in ver), r.func, 'verify',
                   'a response is returned that was not verified, or was found wanting')
            for i, e in ver:
                stars = [v2 for n, v2 in e.kw if n == '**']
                ctx.ob('C03.args', any(contains(strip(x), own_args) for x in stars), r.func, 'verify arguments',
                       'verified without the verification arguments of the service', line=e.line)
            pp = [i for i, e, _ in calls(o, 'post_parse_response') if strip(e.res) == v]
            ctx.ob('C03.verified', bool(pp) and any(i < pp[-1] for i, _ in ver), r.func, 'order',
                   'post processed before it was verified')
        else:
            msg = v
            ok = parsed(msg) and is_error(o.facts, r.eng, msg) is True
            ctx.ob('C03.verified', ok, r.func, 'result', 'returns {} which was neither verified nor is an error'.format(
                show(v)))
        if parsed(msg):
            ctx.ob('C03.parsed', of_type(r, o, msg), r.func, 'deserialize', 'parsed by ' + show(msg))


def callargs(t):
    return list(t[2]) + [v for _, v in t[3]]


def known_state(args):
    return any(contains(strip(a), lambda x: x == sym('state')) for a in args)


def own_args(t):
    return is_call(t, 'gather_verify_arguments') and recv(t) == SELF


def parsed(t):
    return is_call(t, 'deserialize', 'from_json', 'from_jwt', 'from_urlencoded', 'from_dict')


def of_type(r, o, msg):
    x = recv(msg)
    return contains(x, lambda t: t == ('attr', SELF, 'response_cls'))


def accepted(r, o, e):
    res = strip(e.res)
    return fact(o.facts, r.eng, 'eq', res, C(False)) is False or truthy(o.facts, r.eng, res) is True


def caller(ctx):
    ctx.rule('C03.caller', 'parse_request_response: a response to a request that succeeded is what the service made of the '
             'body of the answer')
    r = ctx.run('oidcrp.oauth2.Client.parse_request_response')
    if r is None:
        return
    body = at(sym('reqresp'), 'text')
    for o in r.returns:
        v = r.value(o)
        if base_of(v) == sym('reqresp') or v[0] == 'obj' and keys_of(v)[0] & {'error'}:
            continue
        v = base_of(v)
        ok = is_call(v, 'parse_response') and recv(v) == sym('service') and strip(callarg(v, 'info', 0)) == body
        ctx.ob('C03.caller', ok, r.func, 'result', 'returns ' + show(v))
    r = ctx.run('oidcrp.oauth2.Client.get_response', keep=lambda a: a[0] == 'eq' and mentions(a, C('html')))
    if r is None:
        return
    for o in r.returns:
        v = r.value(o)
        if v[0] == 'obj' and keys_of(v)[0] == {'http_response'}:
            continue
        if v[0] == 'attr' and v[2] == 'text':
            ok = any(p and a[0] == 'eq' and mentions(a, C('html')) for a, p in o.facts.items())
            ctx.ob('C03.caller', ok, r.func, 'html', 'the body is returned as it is')
            continue
        ok = is_call(v, 'parse_request_response') and callarg(v, 'service', 0) == sym('service')
        ctx.ob('C03.caller', ok, r.func, 'result', 'returns ' + show(v))
