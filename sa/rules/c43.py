"""A response is read as what it says it is.

What is made of content types, of URLs and of the formats of answers is interpreted for samples of each.
"""
from ..messages import ways
from ..q import *
from ..terms import C, contains, is_const, show

SERVICE = 'oidcrp.service.Service'
CLIENT = 'oidcrp.oauth2.Client'
TYPES = {'application/json': 'json', 'application/json; charset=utf-8': 'json', 'application/jrd+json': 'json', 'application/jwt': 'jwt', 'application/jose': 'jose',
         'application/x-www-form-urlencoded': 'urlencoded', 'application/x-www-form-urlencoded;charset=UTF-8': 'urlencoded', 'text/plain': '', 'text/html': '',
         'image/png': ''}
URLS = {'https://rp/cb?code=1&state=2': 'code=1&state=2', 'https://rp/cb#access_token=x&state=2': 'access_token=x&state=2', 'https://rp/cb?code=1#_=_': 'code=1',
        'code=1&state=2': 'code=1&state=2', '?code=1': 'code=1', '#code=1': 'code=1', 'https://rp/cb?next=/a?b&code=1': 'next=/a?b&code=1'}


def check(ctx):
    ctx.rule('C43.way', 'the answer of an endpoint is what the endpoint is to answer with', 1)
    ways(ctx, 'C43.way', ('response_body_type',))
    ctx.rule('C43.type', 'the content type of an answer says how it is to be read', 8)
    ctx.rule('C43.read', 'an answer is read as its content type says, else as is expected', 8)
    ctx.rule('C43.url', 'a response that is a URL is read from its query, or from its fragment when there is no query', 6)
    ctx.rule('C43.whole', 'the whole of a response is read, in the format that is given or else in that of the service', 8)
    ctx.rule('C43.signed', 'a signed or encrypted object is unpacked as such, its signature checked', 3)
    content_type(ctx)
    answer(ctx)
    expected(ctx)
    url(ctx)
    for cls in [SERVICE] + [c.dotted for c in ctx.prog.subclasses(SERVICE) if 'parse_response' in c.methods or '_do_response' in c.methods]:
        response(ctx, cls)


def outcome(ctx, rid, r, o, v, want, construct, msg):
    """a value that has to be a certain text"""
    v = strip(v) if v is not None else C(None)
    if not is_const(v):
        ctx.unclear('{}: {}: {}'.format(r.func.dotted, construct, show(v)[:80]))
    else:
        ctx.ob(rid, v == C(want) or not want and v == C(None), r.func, construct, msg.format(show(v)))


def content_type(ctx):
    name = 'oidcrp.util.get_deserialization_method'
    ans = sym('reqresp')
    for ct, want in TYPES.items():
        r = ctx.run(name, args={'reqresp': ans}, fold=True, keep=lambda a: False, given={('attr', ans, 'headers'): dct({'content-type': ct, 'Content-Type': ct})})
        for o in r.returns if r else ():
            outcome(ctx, 'C43.type', r, o, r.value(o), want, ct, ct + ' is read as {}')


def answer(ctx):
    """the format handed to the service for each content type"""
    ans = sym('reqresp')
    for m in impls(ctx, CLIENT, 'parse_request_response'):
        for said in ('json', 'jwt', 'urlencoded', ''):
            for expected in ('json', 'jwt', 'urlencoded', 'txt'):
                r = ctx.run(m, args={'reqresp': ans, 'service': sym('service'), 'response_body_type': C(expected), 'state': C('S')}, keep=lambda a: False,
                            results={'get_deserialization_method': C(said)}, opaque={'get_deserialization_method'},
                            given={('attr', ans, 'status_code'): C(200)})
                n = 0
                for o in r.returns if r else ():
                    for _, e, _ in calls(o, 'parse_response'):
                        n += 1
                        outcome(ctx, 'C43.read', r, o, arg(e, 'sformat', 1), said or expected, said or 'none',
                                'an answer that says it is {} where {} is expected is read as {{}}'.format(said or 'nothing', expected))
                        info = arg(e, 'info', 0)
                        ctx.ob('C43.whole', info is not None and strip(info) == at(ans, 'text'), r.func, 'body', 'what is read is ' + shows(info), e.line)
                if r:
                    ctx.ob('C43.read', n > 0, r.func, 'parse_response', 'an answer is not read by its service')


def expected(ctx):
    """the format that is expected: as asked for, else that of the service"""
    srv = sym('the service')
    for m in impls(ctx, CLIENT, 'do_request'):
        for asked in ('json', 'urlencoded', 'jwt', ''):
            r = ctx.run(m, args={'request_type': C('it'), 'response_body_type': C(asked), 'kwargs': dct({})}, keep=lambda a: False, opaque={'service_request', 'get_request_parameters'},
                        results={'get_request_parameters': dct({'url': 'u'})},
                        given={('attr', SELF, '_service'): dct({'it': srv}), ('attr', srv, 'response_body_type'): C('its own')})
            for o in r.returns if r else ():
                for _, e, _ in calls(o, 'service_request'):
                    got = arg(e, 'response_body_type', 4)
                    outcome(ctx, 'C43.read', r, o, got if got is not None else C(''), asked or 'its own', 'expected',
                            'an answer that is expected to be {} is expected as {{}}'.format(asked or 'what the service says'))


def url(ctx):
    for m in impls(ctx, SERVICE, 'get_urlinfo'):
        f = ctx.prog.func(m)
        par = [p.arg for p in f.node.args.args if p.arg != 'self']
        for u, want in URLS.items():
            r = ctx.run(m, args={par[0]: C(u)}, fold=True, keep=lambda a: False)
            for o in r.outs if r else ():
                if o.kind == 'return':
                    outcome(ctx, 'C43.url', r, o, r.value(o), want, u, u + ' is read from {}')


def response(ctx, cls):
    """the formats a service reads a response in"""
    body = C('the response')
    for given in ('json', 'urlencoded', 'dict', ''):
        for own in ('json', 'urlencoded'):
            r = ctx.run(cls + '.parse_response', types={SELF: cls}, keep=lambda a: False, opaque={'get_urlinfo', '_do_jwt', 'gather_verify_arguments', 'post_parse_response'},
                        transparent={'_do_response'}, results={'get_urlinfo': C('the query')}, args={'info': body, 'sformat': C(given), 'kwargs': dct({})},
                        given={('attr', SELF, 'response_body_type'): C(own)})
            how = given or own
            for o in r.returns if r else ():
                done = calls(o, 'deserialize')
                first = True
                for _, e, _ in done:
                    fm, what = arg(e, 'method', 1), arg(e, 'info', 0)
                    fm = strip(fm) if fm is not None else C(None)
                    if first:
                        outcome(ctx, 'C43.whole', r, o, fm, how, 'format', 'with {} given and {} expected a response is read as {{}}'.format(given or 'nothing', own))
                    else:
                        ctx.ob('C43.whole', fm in (C('jwt'), C(how)) and how == 'json' or fm == C(how), r.func, 'format', 'what could not be read as {} is read as {}'.format(
                            how, shows(fm)), e.line)
                    want = C('the query') if how == 'urlencoded' else body
                    ctx.ob('C43.whole', what is not None and strip(what) == want, r.func, 'info', 'what is read of a response is {} where it is {}'.format(shows(what), how), e.line)
                    first = False
    # signed or encrypted
    r = ctx.run(cls + '.parse_response', types={SELF: cls}, keep=lambda a: False, opaque={'get_urlinfo', '_do_jwt', 'gather_verify_arguments', 'post_parse_response'},
                transparent={'_do_response'}, results={'_do_jwt': C('what was unpacked')}, args={'info': body, 'sformat': C('jwt'), 'kwargs': dct({})})
    for o in r.returns if r else ():
        for _, e, _ in calls(o, 'deserialize', 'from_dict'):
            what = arg(e, 'info', 0)
            fm = arg(e, 'method', 1)
            ok = what is not None and (strip(what) == C('what was unpacked') or contains(strip(what), lambda t: is_call(t, 'unpack')))
            ctx.ob('C43.signed', ok, r.func, 'jwt', 'what is read of a signed response is {} as {}'.format(shows(what), shows(fm)), e.line)
    r = ctx.run(cls + '._do_response', types={SELF: cls}) if ctx.prog.find_method(ctx.prog.cls(cls), '_do_response') else None
    for o in r.outs if r else ():
        for _, e, _ in calls(o, 'deserialize', 'from_jwt'):
            for k in ('verify', 'verify_signature', 'no_verify'):
                v = dict(e.kw).get(k)
                ctx.ob('C43.signed', v is None or strip(v) == C(k != 'no_verify'), r.func, k, 'signatures are not checked: {} is {}'.format(k, shows(v)), e.line)
