"""Issuer discovery never trusts plain http or other link relations."""
from ..messages import kinds
from ..q import *
from ..terms import C, show

BASE = 'oidcrp.oidc.webfinger.WebFinger'
RESP = sym('resp')
LINKS = it(RESP, 'links')
REL = at(SELF, 'rel')
ISSUER_REL = 'http://openid.net/specs/connect/1.0/issuer'


def http_atom(a):
    return contains(('x',) + a, lambda x: is_const(x) and isinstance(x[2], str) and x[2].startswith('http'))


def not_http(r, facts, href):
    """the link is known not to be a plain http one, or http links are allowed"""
    for a, p in facts.items():
        x = [strip(y) for y in a[1:] if isinstance(y, tuple)]
        if a[0] == 'T' and p and contains(x[0], lambda y: y[0] == 'item' and y[2] == C('http_links')
                                          and contains(y[1], lambda z: z == at(SELF, 'conf'))):
            return True
        if not mentions(('x',) + a, href):
            continue
        folded = contains(('x',) + a, lambda y: is_call(y, 'lower', 'casefold', 'urlsplit', 'urlparse')
                          and mentions(y, href))
        if not folded:
            continue
        consts = [y[2] for t in x for y in walk(t) if is_const(y) and isinstance(y[2], str) and y[2].startswith('http')]
        if a[0] in ('T', 'eq') and consts:
            if not p and all(c in ('http', 'http:', 'http:/', 'http://') for c in consts):
                return True
            if p and all(c.startswith('https') for c in consts):
                return True
    return False


def check(ctx):
    ctx.rule('C09.kind', 'a discovery response is verified as such', 1)
    kinds(ctx, 'C09.kind', only=('WebFinger',))
    links(ctx)
    request(ctx)


def links(ctx):
    ctx.rule('C09.rel', 'the issuer is set once, to the target of the first link with the wanted relation')
    ctx.rule('C09.http', 'nothing is changed unless the target is not plain http or http links are allowed')
    ctx.rule('C09.reject', 'a plain http target is an exception')
    ctx.rule('C09.relation', 'the wanted relation is that of the OpenID Connect issuer unless configured otherwise')
    iters = 4 if ctx.tier == 'thorough' else 2
    for name in impls(ctx, BASE, 'update_service_context'):
        r = ctx.run(name, keep=http_atom, loop_iters=iters)
        if r is None:
            continue
        raised = False
        for o in r.outs:
            ef = effects(o)
            ctx.ob('C09.rel', len(ef) <= 1, r.func, 'issuer', 'more than one change')
            for _, e, f in ef:
                v = strip(e.args[1]) if e.kind == 'setattr' else None
                ok = e.kind == 'setattr' and e.recv == CTX and e.args[0] == C('issuer') and v[0] == 'item' \
                    and v[2] == C('href') and contains(v[1], lambda x: x == LINKS)
                if not ctx.ob('C09.rel', ok, r.func, e.name, 'changes {} to {}'.format(show(e.recv), shows(v)), line=e.line):
                    continue
                link = v[1]
                ctx.ob('C09.rel', known_eq(f, it(link, 'rel'), REL, r.eng), r.func, 'rel',
                       'the link used is not known to have the wanted relation', line=e.line)
                if link[0] == 'elem':
                    for n in range(1, link[2]):
                        prev = ('elem', link[1], n) + link[3:]
                        ctx.ob('C09.rel', known_ne(f, it(prev, 'rel'), REL, r.eng), r.func, 'first',
                               'an earlier link with the wanted relation is passed over', line=e.line)
                elif link[0] == 'item' and is_const(link[2]):
                    ctx.ob('C09.rel', False, r.func, 'first', 'a link is picked by position', line=e.line)
                ctx.ob('C09.http', not_http(r, f, v), r.func, 'href', 'a plain http link may be used', line=e.line)
            if o.kind == 'raise' and any(p and http_atom(a) and mentions(('x',) + a, C('href')) for a, p in o.facts.items()):
                raised = True
                ctx.ob('C09.http', not ef, r.func, 'rejected', 'something is recorded before the link is rejected')
        ctx.ob('C09.reject', raised, r.func, 'raise', 'no exception for plain http links')
    for name in impls(ctx, BASE, '__init__'):
        r = ctx.run(name, watch=lambda e: e.kind == 'setattr')
        for o in r.returns if r else ():
            for _, v in r.get_attr(o, SELF, 'rel'):
                ok = v == sym('rel') and truthy(o.facts, r.eng, v) is not False or v == C(ISSUER_REL)
                ctx.ob('C09.relation', ok, r.func, 'rel', 'relation is ' + shows(v))


def request(ctx):
    ctx.rule('C09.location', 'the request goes to the WebFinger location of the host, over https, and asks for the issuer '
             'relation')
    ctx.rule('C09.url', 'the request URL is the WebFinger query for the resource given')
    for name in impls(ctx, BASE, 'query'):
        r = ctx.run(name)
        for o in r.returns if r else ():
            v = r.value(o)
            ok = is_call(v, 'request') and base_of(recv(v))[0] in ('obj', 'call')
            loc = callarg(v, 'location', 0) if ok else None
            loc = parts(strip(loc)) if loc else []
            ok = ok and len(loc) >= 3 and loc[0] == C('https://') and loc[-1] == C('/.well-known/webfinger')
            ctx.ob('C09.location', ok, r.func, 'location', 'request is ' + show(v))
            for _, rel in r.get(o, recv(v), 'rel') if ok else ():
                ctx.ob('C09.location', rel == C(ISSUER_REL) or rel == REL, r.func, 'rel', 'relation is ' + shows(rel))
            for _, res in r.get(o, recv(v), 'resource') if ok else ():
                ctx.ob('C09.location', res is not None and contains(res, lambda x: x == sym('resource')
                                                                          or is_call(x, 'urlunsplit')), r.func, 'resource',
                       'resource is ' + shows(res))
    for name in impls(ctx, BASE, 'get_request_parameters'):
        r = ctx.run(name, opaque={'query'})
        for o in r.returns if r else ():
            for _, u in r.get(o, r.value(o), 'url'):
                ok = u is not None and is_call(u, 'query') and recv(u) == SELF
                ctx.ob('C09.url', ok, r.func, 'url', 'URL is ' + shows(u))
                if ok:
                    res = strip(callarg(u, 'resource', 0))
                    ok = res in (it(sym('request_args'), 'resource'), it(KW, 'resource'),
                                 it(at(CTX, 'config'), 'resource'))
                    ctx.ob('C09.url', ok, r.func, 'resource', 'resource is ' + show(res))
