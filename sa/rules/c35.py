"""A request is put on the wire completely and in the right place.

The functions are interpreted for sample requests and URLs; library functions on URLs and serialisations are folded, so that what
comes out is compared as what it means and not as how it is spelled.
"""
import json
from urllib.parse import parse_qs, parse_qsl, urlsplit

from ..messages import kinds, ways
from ..q import *
from ..terms import C, contains, is_const, show

UTIL = 'oidcrp.util.'
SERVICE = 'oidcrp.service.Service'
CLIENT = 'oidcrp.oauth2.Client'
URLS = ('https://op.example/a', 'https://op.example/a/b/', 'https://op.example/a?foo=bar', 'https://op.example:80/a?foo=b%26r&foo=b2', 'https://op.example/a?flag=&x=1',
        'https://op.example/a?client_id=other&x=1', 'https://op.example/a?scope=other#part', 'https://op.example/a#part', 'https://op.example')
REQUESTS = ({'client_id': 'me'}, {'client_id': 'me', 'scope': 'a b', 'state': 's&t=1', 'redirect_uri': 'https://rp.example/cb?a=b#c'}, {'state': 'x', 'nonce': '+%25'}, {})
TYPES = {'urlencoded': 'application/x-www-form-urlencoded', 'json': 'application/json', 'jws': 'application/jose', 'jwe': 'application/jose',
         'jose': 'application/jose'}
ENDPOINT = 'https://op.example/e?foo=bar'


def check(ctx):
    ctx.rule('C35.way', 'a service talks to its endpoint in the way that it understands', 1)
    ways(ctx, 'C35.way', ('endpoint_name', 'http_method', 'request_body_type'))
    ctx.rule('C35.kind', 'requests are of the kind of their service', 1)
    kinds(ctx, 'C35.kind', 'msg_type')
    ctx.rule('C35.query', 'GET and DELETE requests have their parameters, and what was there, in the query', 60)
    ctx.rule('C35.asis', 'for other methods the URL is the endpoint', 30)
    ctx.rule('C35.body', 'the body is the request in the serialisation asked for', 12)
    ctx.rule('C35.type', 'the content type names the serialisation', 10)
    ctx.rule('C35.headers', 'what authentication and add-ons put into the headers is sent', 12)
    ctx.rule('C35.sent', 'what was put together is what is handed to the HTTP library', 12)
    for req in REQUESTS:
        for u in URLS:
            for method in ('GET', 'DELETE', 'POST', 'PUT'):
                url(ctx, u, req, method)
        for ct in sorted(set(TYPES.values())) + ['text/plain']:
            body(ctx, req, ct)
    done = set()
    for m in impls(ctx, SERVICE, 'get_request_parameters'):
        f = ctx.prog.func(m)
        if f.cls is None or f.cls.dotted != SERVICE and f.dotted not in done:
            done.add(f.dotted)
            own(ctx, m)
        elif f.dotted not in done:
            done.add(f.dotted)
            for method in ('GET', 'POST', 'DELETE'):
                for bt in sorted(TYPES):
                    for how in ('given', 'default'):
                        parameters(ctx, m, method, bt, how)
    for m in impls(ctx, CLIENT, 'do_request'):
        sent(ctx, m)
    library(ctx)


def text(t):
    """the text a term stands for, None when that is not known"""
    t = strip(t)
    return t[2] if is_const(t) and isinstance(t[2], str) else None


def meant(u, req, method):
    """what a URL has to be: everything but the query, and the query as pairs"""
    p = urlsplit(u)
    pairs = parse_qsl(p.query, keep_blank_values=True)
    if method in ('GET', 'DELETE'):
        pairs = [(k, v) for k, v in pairs if k not in req] + list(req.items())
    return (p.scheme, p.netloc, p.path or '', p.fragment), sorted(pairs)


def is_url(ctx, rid, func, construct, got, u, req, method, line=None):
    got = text(got)
    if got is None:
        ctx.unclear('{}: the URL of a {} request is not clear'.format(func, method))
        return
    if method in ('GET', 'DELETE') and req:
        p = urlsplit(got)
        have = (p.scheme, p.netloc, p.path or '', p.fragment), sorted(parse_qsl(p.query, keep_blank_values=True))
        ok = have == meant(u, req, method)
    else:
        ok = got == u
    ctx.ob(rid, ok, func, construct, 'a {} request with {} to {} goes to {}'.format(method, req, u, got), line)


def url(ctx, u, req, method):
    name = UTIL + 'get_http_url'
    r = ctx.run(name, args={'url': C(u), 'req': dct(req), 'method': C(method)}, fold=True)
    rid = 'C35.query' if method in ('GET', 'DELETE') else 'C35.asis'
    for o in r.outs if r else ():
        if o.kind != 'return':
            ctx.ob(rid, False, name, 'raise', 'fails for {} {} with {}'.format(method, u, req))
            continue
        is_url(ctx, rid, name, 'url', r.value(o), u, req, method)


def same_message(got, req, ct):
    if ct == TYPES['urlencoded']:
        return parse_qs(got, keep_blank_values=True) == {k: [v] for k, v in req.items()}
    try:
        return json.loads(got) == req
    except ValueError:
        return False


def body(ctx, req, ct):
    name = UTIL + 'get_http_body'
    r = ctx.run(name, args={'req': dct(req) if ct != TYPES['jws'] else sym('the package'), 'content_type': C(ct)}, fold=True)
    for o in r.outs if r else ():
        if ct not in TYPES.values():
            ctx.ob('C35.body', o.kind == 'raise', name, ct, 'a body of type {} is made'.format(ct))
        elif not ctx.ob('C35.body', o.kind == 'return', name, ct, 'no body of type {}'.format(ct)):
            pass
        elif ct == TYPES['jws']:
            ctx.ob('C35.body', strip(r.value(o)) == sym('the package'), name, ct, 'what is already packed is changed')
        elif text(r.value(o)) is None:
            ctx.unclear('the body of type {} is not clear'.format(ct))
        else:
            got = text(r.value(o))
            ctx.ob('C35.body', same_message(got, req, ct), name, ct, 'the body for {} is {}'.format(req, got))


def parameters(ctx, m, method, bt, how):
    """the whole step, for a request that has been built"""
    req = REQUESTS[1]
    msg = dct(req) if TYPES[bt] != TYPES['jws'] or method != 'POST' else sym('the package')
    args = {'request_args': dct({}), 'method': C(method if how == 'given' else ''), 'request_body_type': C(bt if how == 'given' else ''),
            'authn_method': C(''), 'kwargs': dct({'endpoint': ENDPOINT} if how == 'given' else {})}
    given = {('attr', SELF, 'http_method'): C(method if how == 'default' else 'PATCH'),
             ('attr', SELF, 'request_body_type'): C(bt if how == 'default' else 'urlencoded'), ('attr', SELF, 'endpoint'): C(ENDPOINT)}
    head = {'Authorization': 'the credentials', 'X-Proof': 'the proof'}
    r = ctx.run(m, args=args, given=given, fold=True, results={'construct_request': msg,
                'get_headers': dct({**head, 'Content-Type': 'text/other'} if method == 'POST' and how == 'given' else head), 'get_endpoint': C(ENDPOINT)},
                opaque={'get_endpoint', 'construct_request', 'get_headers'}, transparent={'get_http_url', 'get_http_body'}, inline={'get_http_url', 'get_http_body'},
                harmless={'get_headers'})
    for o in r.outs if r else ():
        what = '{} {}'.format(method, bt)
        if not ctx.ob('C35.sent', o.kind == 'return', r.func, what, 'no parameters for {}'.format(what)):
            continue

        def one(key):
            res = [v if v is None else strip(v) for _, v in r.get(o, r.value(o), key)]
            return res[0] if len(res) == 1 else ()
        u, b, h, me = one('url'), one('body'), one('headers'), one('method')
        if () in (u, b, h, me):
            ctx.unclear('the parameters for {} are not clear'.format(what))
            continue
        ctx.ob('C35.sent', me == C(method), r.func, 'method', 'the method is {} instead of {}'.format(shows(me), method))
        if u is None:
            ctx.ob('C35.query', False, r.func, 'url', 'no URL')
        elif msg[0] != 'sym':
            is_url(ctx, 'C35.query' if method != 'POST' else 'C35.asis', r.func, 'url', u, ENDPOINT, req, method)
        else:
            ctx.ob('C35.asis', u == C(ENDPOINT), r.func, 'url', 'a {} request is sent to {}'.format(method, shows(u)[:80]))
        if method == 'POST':
            if msg[0] == 'sym':
                ctx.ob('C35.body', b == msg, r.func, 'body', 'the body is {}'.format(shows(b)[:80]))
            elif b is None or text(b) is not None:
                ctx.ob('C35.body', b is not None and same_message(text(b), req, TYPES[bt]), r.func, 'body', 'the body for {} is {}'.format(what, shows(b)[:80]))
            else:
                ctx.unclear('the body for {} is not clear'.format(what))
            for _, v in r.get(o, h, 'Content-Type') if h is not None else [(0, None)]:
                ctx.ob('C35.type', v is not None and text(v) is not None and text(v).split(';')[0] == TYPES[bt], r.func, 'Content-Type',
                       'the content type for {} is {}'.format(what, shows(v)[:60]))
        else:
            ctx.ob('C35.body', b is None or b == C(None), r.func, 'body', 'a {} request has a body'.format(method))
        for k, x in head.items():
            for _, v in r.get(o, h, k) if h is not None else [(0, None)]:
                ctx.ob('C35.headers', v is not None and strip(v) == C(x), r.func, k, 'the header {} is {} for {}'.format(k, shows(v)[:60], what))


def own(ctx, m):
    """services that build their own parameters: these have no body"""
    r = ctx.run(m)
    for o in r.returns if r else ():
        for k, must in (('url', True), ('body', False)):
            for _, v in r.get(o, r.value(o), k):
                ctx.ob('C35.sent', v is not None or not must, r.func, k, 'no {}'.format(k))


def sent(ctx, m):
    """what is handed to the HTTP client is what get_request_parameters put together"""
    parts = {'method': C('POST'), 'url': sym('the url'), 'body': sym('the body'), 'headers': dct({'X-Proof': 'the proof'}), 'request': sym('the request')}
    for have in (set(parts), {'method', 'url', 'headers', 'request'}, {'method', 'url', 'request'}, {'url'}):
        info = {k: v for k, v in parts.items() if k in have}
        r = ctx.run(m, args={'kwargs': dct({'state': sym('the state')}), 'request_args': sym('the arguments')}, results={'get_request_parameters': dct(info)},
                    transparent={'service_request', 'get_response'}, opaque={'parse_request_response', 'get_response_ext'}, inline={'service_request', 'get_response'})
        used = 0
        for o in r.outs if r else ():
            asked = calls(o, 'get_request_parameters')
            for _, e, _ in asked:
                ctx.ob('C35.sent', [v for _, v in kwval(e, 'request_args', r.eng, o.state)] == [sym('the arguments')] or strip(arg(e, 'request_args', 0, C(0))) == sym('the arguments'),
                       r.func, 'request_args', 'the arguments are lost', e.line)
                ctx.ob('C35.sent', [v for _, v in kwval(e, 'state', r.eng, o.state)] == [sym('the state')], r.func, 'state', 'the state is lost', e.line)
            for _, e, f in events(o, 'call'):
                if e.name not in ('http', 'request', 'send', 'post', 'get') or strip(arg(e, 'url', 0, C(0))) != sym('the url') and strip(arg(e, 'url', 1, C(0))) != sym('the url'):
                    continue
                used += 1
                for k, names in (('body', ('data', 'json')), ('headers', ('headers',))):
                    got = [v for n in names for s, v in kwval(e, n, r.eng, o.state) if v is not None and v != C(None)]
                    if k in have:
                        ctx.ob('C35.sent', len(got) == 1 and holds(r, o, got[0], parts[k]), r.func, k, 'the {} of the request: {}'.format(k, [shows(x)[:60] for x in got]), e.line)
                    else:
                        ctx.ob('C35.sent', all(v[0] == 'obj' and not v[4] for v in got), r.func, k, 'there is no {} but sent are {}'.format(k, [
                            shows(x)[:60] for x in got]), e.line)
                if 'method' in have:
                    ctx.ob('C35.sent', strip(arg(e, 'method', 1, C('GET'))) == C('POST'), r.func, 'method', 'the method is ' + shows(arg(e, 'method', 1)), e.line)
        ctx.ob('C35.sent', used > 0, m, 'http', 'the request is never sent')


def holds(r, o, got, want):
    if got == want:
        return True
    return want[0] == 'obj' and all(v is not None and strip(v) == C('the proof') for _, v in r.get(o, got, 'X-Proof'))


def library(ctx):
    for m in impls(ctx, 'oidcrp.http.HTTPLib', '__call__'):
        r = ctx.run(m, args={'url': sym('the url'), 'method': sym('the method'), 'kwargs': dct({'data': sym('the body'), 'headers': sym('the headers')})})
        for o in r.returns if r else ():
            done = [e for _, e, _ in calls(o, 'request')]
            ctx.ob('C35.sent', len(done) == 1, r.func, 'request', '{} requests'.format(len(done)))
            for e in done:
                ctx.ob('C35.sent', strip(arg(e, 'method', 0, C(0))) == sym('the method') and strip(arg(e, 'url', 1, C(0))) == sym('the url'), r.func, 'request',
                       'sends {} to {}'.format(shows(arg(e, 'method', 0)), shows(arg(e, 'url', 1))), e.line)
                for k in ('data', 'headers'):
                    for _, v in kwval(e, k, r.eng, o.state):
                        want = sym('the body' if k == 'data' else 'the headers')
                        ctx.ob('C35.sent', v is not None and base_of(strip(v)) == want, r.func, k, '{} is {}'.format(k, shows(v)[:60]), e.line)
    for m in impls(ctx, 'oidcrp.http.HTTPLib', 'send'):
        r = ctx.run(m, args={'url': sym('the url'), 'method': sym('the method'), 'kwargs': dct({'data': sym('the body'), 'headers': sym('the headers')})}, opaque={'__call__'})
        for o in r.returns if r else ():
            for e in [e for _, e, _ in events(o, 'call') if strip(e.res) == strip(r.value(o))]:
                for k in ('data', 'headers'):
                    for _, v in kwval(e, k, r.eng, o.state):
                        want = sym('the body' if k == 'data' else 'the headers')
                        ctx.ob('C35.sent', v is not None and base_of(strip(v)) == want, r.func, k, '{} is {}'.format(k, shows(v)[:60]), e.line)
