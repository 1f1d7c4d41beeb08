"""All HTTP traffic goes through the configured client, without redirects."""
import ast

from ..q import *
from ..terms import C
from .c10 import imports_of
from .c10 import lib_name

NET = ('requests', 'urllib.request', 'urllib3', 'http.client', 'httpx', 'aiohttp', 'socket', 'ftplib', 'pycurl',
       'httplib2', 'treq')
VERBS = ('request', 'get', 'post', 'put', 'patch', 'delete', 'head', 'options')
PARAMS = ('verify', 'cert', 'allow_redirects', 'timeout', 'proxies')
LIB = 'oidcrp.http.HTTPLib'


def check(ctx):
    lint(ctx)
    lib(ctx)
    clients(ctx)
    handler(ctx)
    requests_sent(ctx)
    params(ctx)
    from_file(ctx)


def net_name(n):
    return n is not None and any(n == x or n.startswith(x + '.') for x in NET)


def net_uses(tree):
    """(line, name) for every use of a network library outside imports"""
    imp = imports_of(tree)
    seen = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Attribute):
            n = lib_name(imp, node)
            if net_name(n):
                for x in ast.walk(node):
                    seen.add(id(x))
                if '.exceptions' not in n and not n.endswith(('Error', 'Exception')):
                    yield node.lineno, n
        elif isinstance(node, ast.Name) and id(node) not in seen and isinstance(node.ctx, ast.Load):
            n = lib_name(imp, node)
            if net_name(n) and not n.endswith(('Error', 'Exception')):
                yield node.lineno, n
        elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == '__import__' and \
                node.args and isinstance(node.args[0], ast.Constant) and net_name(str(node.args[0].value)):
            yield node.lineno, node.args[0].value


def lint(ctx):
    ctx.rule('C17.lib', 'network libraries are used by the HTTP client only')
    assert list(net_uses(ast.parse('import requests as r\nfrom urllib.request import urlopen\nr.get(x)\nurlopen(y)')))
    for m in ctx.prog.repo_modules:
        uses = list(net_uses(m.tree)) if m.name != 'oidcrp.http' else []
        ctx.ob('C17.lib', True, m.name, 'module')
        for line, n in uses:
            where = func_at(m, line)
            ctx.ob('C17.lib', False, where, n, '{} used instead of the configured HTTP client'.format(n), line)
    # sessions and adapters would carry settings from one request to the next
    m = ctx.prog.module('oidcrp.http')
    for line, n in net_uses(m.tree):
        ctx.ob('C17.lib', n in ['requests.' + v for v in VERBS] or n in ('requests.Response',), func_at(m, line), n,
               '{} is not a single request'.format(n), line)


def func_at(m, line):
    best = m.name
    size = None
    for node in ast.walk(m.tree):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)) and node.lineno <= line <= node.end_lineno:
            if size is None or node.end_lineno - node.lineno < size:
                best, size = m.name + '.' + node.name, node.end_lineno - node.lineno
    return best


def lib(ctx):
    ctx.rule('C17.default', 'the settings of a client are those it was configured with, redirects off by default')
    ctx.rule('C17.send', 'a request is sent as asked for, with the settings of the client unless overridden for it')
    ctx.rule('C17.stick', 'settings for one request do not change those of the client')
    P = sym('httpc_params')
    for name in impls(ctx, LIB, '__init__'):
        r = ctx.run(name, keep=lambda a: a[-1] == P or a == ('T', P))
        for o in r.returns if r else ():
            for _, ra in r.get_attr(o, SELF, 'request_args'):
                for k in PARAMS:
                    for s, x in r.get(o, ra, k):
                        given = truthy(s.facts, r.eng, P) is not False and known_in(r, s.facts, k, P) is not False
                        ok = x == it(P, k) and given or \
                            (not given or truthy(s.facts, r.eng, P) is False) and x == (C(False) if k == 'allow_redirects' else None)
                        ctx.ob('C17.default', ok, r.func, k, '{} is {}'.format(k, shows(x)))
                ctx.ob('C17.default', ra != P, r.func, 'copy', 'the configuration is shared between clients')
    ra = at(SELF, 'request_args')
    for name in impls(ctx, LIB, '__call__'):
        r = ctx.run(name, opaque={'_cookies', 'set_cookie'}, keep=lambda a: a[0] == 'in' or a == ('T', KW))
        for o in r.returns if r else ():
            sent = [(i, e, f) for i, e, f in events(o, 'call') if e.name in VERBS]
            ctx.ob('C17.send', len(sent) == 1, r.func, 'request', '{} requests are sent'.format(len(sent)))
            for _, e, f in sent:
                if e.name == 'request':
                    m, u = strip(arg(e, 'method', 0, C(None))), strip(arg(e, 'url', 1, C(None)))
                else:
                    m, u = C(e.name.upper()), strip(arg(e, 'url', 0, C(None)))
                    m = sym('method') if known_eq(f, sym('method'), m, r.eng) else m
                ctx.ob('C17.send', m == sym('method') and u == sym('url'), r.func, 'request',
                       'sends {} {}'.format(shows(m), shows(u)), e.line)
                for k in PARAMS + ('data', 'headers', 'json', 'params'):
                    for s, x in kwval(e, k, r.eng, o.state):
                        mine = known_in(r, s.facts, k, KW)
                        none = truthy(s.facts, r.eng, KW) is False
                        dflt = known_in(r, s.facts, k, ra)
                        if x is None:
                            ok = (mine is False or none) and dflt is False
                        else:
                            ok = x == it(KW, k) and mine or x == it(ra, k) and (mine is False or none)
                        ctx.ob('C17.send', ok, r.func, k, '{} sent is {}'.format(k, shows(x)), e.line)
            v = r.value(o)
            ctx.ob('C17.send', is_call(v, *VERBS), r.func, 'return', 'returns ' + shows(v))
        for o in r.outs if r else ():
            for s, x in r.get_attr(o, SELF, 'request_args'):
                ctx.ob('C17.stick', x == ra, r.func, 'request_args', 'settings become ' + shows(x))
    for name in impls(ctx, LIB, 'send'):
        r = ctx.run(name, opaque={'__call__'})
        for o in r.returns if r else ():
            ok = False
            for _, e, f in events(o, 'call'):
                if e.name in ('__call__', 'self', 'sym'):
                    ok = strip(arg(e, 'url', 0, C(None))) == sym('url') and strip(arg(e, 'method', 1, C(None))) == sym('method') \
                        and any(n == '**' and strip(v) == KW for n, v in e.kw)
            ctx.ob('C17.send', ok, r.func, 'send', 'the request is changed')


def clients(ctx):
    ctx.rule('C17.client', 'a client uses the HTTP client it was given, or one with the settings it was given')
    ctx.rule('C17.keys', 'keys are fetched with the TLS settings of the client')
    big = {'ServiceContext', 'init_services', 'do_add_ons'}
    L, P = sym('httplib'), sym('httpc_params')
    for name in impls(ctx, 'oidcrp.oauth2.Client', '__init__'):
        r = ctx.run(name, opaque=big, watch=lambda e: e.kind == 'setattr' and e.name in ('http', 'httpc_params'),
                    keep=lambda a: a in (('T', L), ('T', P), ('in', C('verify'), P)))
        for o in r.returns if r else ():
            for s, x in r.get_attr(o, SELF, 'http'):
                if truthy(s.facts, r.eng, L) is not False:
                    ctx.ob('C17.client', x == L, r.func, 'http', 'uses ' + shows(x))
                    continue
                ok = x[0] == 'obj' and x[2] == ('cls', LIB)
                ctx.ob('C17.client', ok, r.func, 'http', 'uses ' + shows(x))
                for _, ra in r.get_attr(o, x, 'request_args') if ok else ():
                    for k in PARAMS:
                        for s2, y in r.get(o, ra, k):
                            given = truthy(s2.facts, r.eng, P) is not False and known_in(r, s2.facts, k, P) is not False
                            ok = y == it(P, k) and given or (known_in(r, s2.facts, k, P) is False or
                                                             truthy(s2.facts, r.eng, P) is False)
                            ctx.ob('C17.client', ok, r.func, k, '{} is {}'.format(k, shows(y)))
            for s, x in r.get_attr(o, SELF, 'httpc_params'):
                if truthy(s.facts, r.eng, P):
                    ctx.ob('C17.client', x == P, r.func, 'httpc_params', 'settings are ' + shows(x))
                else:
                    for _, y in r.get(o, x, 'verify'):
                        ctx.ob('C17.client', y in (None, C(True)), r.func, 'verify', 'verify is ' + shows(y))
    for name in impls(ctx, 'oidcrp.entity.Entity', '__init__'):
        r = ctx.run(name, opaque=big, keep=lambda a: a == ('T', P) or a[0] == 'in' and a[1] == C('verify'))
        for o in r.returns if r else ():
            key_params(ctx, r, o, '_service_context', P)
            for _, e, f in calls(o, 'ServiceContext'):
                kj = [v for n, v in e.kw if n == 'keyjar']
                ctx.ob('C17.keys', kj == [sym('keyjar')], r.func, 'keyjar', 'key jar is {}'.format([shows(x) for x in kj]), e.line)


def key_params(ctx, r, o, context, P, jar=None):
    """what keys are fetched with is the key jar's own or what was configured"""
    eng = r.eng
    saved, eng.sink = eng.sink, []
    eng.callstack = eng.callstack or ['?']
    try:
        jars = [(s, k) for s, c in eng.load_attr(o.state, SELF, context, None)
                for s, k in (eng.load_attr(s, c, 'keyjar', None) if context != 'keyjar' else [(s, c)])]
        jars = [(s, eng.freeze(s, k), eng.freeze(s, v)) for s, k in jars for s, v in eng.load_attr(s, k, 'httpc_params', None)]
    finally:
        eng.sink = saved
    for s, k, v in jars:
        own = at(base_of(strip(k)), 'httpc_params')
        for s2, y in r.get(s, v, 'verify'):
            mine = known_in(r, s2.facts, 'verify', own)
            given = truthy(s2.facts, eng, P) is not False
            has = known_in(r, s2.facts, 'verify', P)
            ok = y == it(own, 'verify') and mine or \
                mine is not True and (y == it(P, 'verify') if given and has is not False else
                                      y is None if given else y in (C(True), sym('verify_ssl')))
            ctx.ob('C17.keys', ok, r.func, 'verify', 'keys are fetched with verify={}'.format(shows(y)))


def handler(ctx):
    ctx.rule('C17.handler', 'all clients of a handler get its HTTP client and settings')
    P = sym('httpc_params')
    H = 'oidcrp.rp_handler.RPHandler.'
    for name in impls(ctx, 'oidcrp.rp_handler.RPHandler', '__init__'):
        f = ctx.prog.func(name)
        a = f.node.args
        dflt = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
        dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)})
        d = dflt.get('verify_ssl')
        ctx.ob('C17.handler', isinstance(d, ast.Constant) and d.value is True, f, 'verify_ssl',
               'certificates are not verified by default')
        r = ctx.run(name, opaque={'init_key_jar'}, keep=lambda a: a == ('T', P) or a[0] == 'in' and a[1] == C('verify'),
                    watch=lambda e: e.kind == 'setattr' and e.name in ('httplib', 'httpc_params'))
        for o in r.returns if r else ():
            for s, x in r.get_attr(o, SELF, 'httplib'):
                ctx.ob('C17.handler', x == sym('http_lib'), r.func, 'httplib', 'uses ' + shows(x))
            for s, x in r.get_attr(o, SELF, 'httpc_params'):
                if truthy(s.facts, r.eng, P):
                    ctx.ob('C17.handler', x == P, r.func, 'httpc_params', 'settings are ' + shows(x))
                else:
                    for _, y in r.get(o, x, 'verify'):
                        ctx.ob('C17.handler', y == sym('verify_ssl'), r.func, 'verify', 'verify is ' + shows(y))
            key_params(ctx, r, o, 'keyjar', P)
    r = ctx.run(H + 'init_client', opaque={'pick_config', 'load', 'dump', 'deepcopy'})
    for o in r.returns if r else ():
        c = calls(o, 'client_cls')
        ctx.ob('C17.handler', bool(c), r.func, 'client_cls', 'no client is made')
        for _, e, f in c:
            for n, want in (('httplib', at(SELF, 'httplib')), ('httpc_params', at(SELF, 'httpc_params'))):
                for _, x in kwval(e, n, r.eng, o.state):
                    ctx.ob('C17.handler', x == want, r.func, n, '{} given is {}'.format(n, shows(x)), e.line)


def http_call(e):
    """something sent with the HTTP client of an entity"""
    return e.kind == 'call' and (e.name == 'http' or e.recv is not None and strip(e.recv)[0] == 'attr' and strip(e.recv)[2] == 'http')


def requests_sent(ctx):
    ctx.rule('C17.request', 'a request does not loosen the settings')
    ctx.rule('C17.once', 'a request is sent once, to where it was meant to go')
    n = 0
    for name in owners(ctx, 'http', 'http_client'):
        if name.endswith('__init__'):
            continue
        r = ctx.run(name)
        for o in r.outs if r else ():
            for _, e, f in events(o, 'call'):
                if not http_call(e):
                    continue
                n += 1
                for k, v in e.kw:
                    ok = k in ('data', 'headers', 'method', 'url', '**', 'json', 'params')
                    ctx.ob('C17.request', ok, r.func, k, '{} is set to {} for one request'.format(k, shows(v)), e.line)
                    if k == '**':
                        ks, other = keys_of(strip(v))
                        ctx.ob('C17.request', not ks & set(PARAMS), r.func, '**', 'sets {}'.format(sorted(ks & set(PARAMS))), e.line)
    for name in impls(ctx, 'oidcrp.oauth2.Client', 'get_response'):
        r = ctx.run(name, opaque={'parse_request_response'})
        for o in r.returns if r else ():
            c = [e for _, e, f in events(o, 'call') if http_call(e)]
            ctx.ob('C17.once', len(c) == 1, r.func, 'http', '{} requests are sent'.format(len(c)))
            for e in c:
                got = (strip(arg(e, 'url', 0, C(None))), strip(arg(e, 'method', 1, C('GET'))))
                ctx.ob('C17.once', got == (sym('url'), sym('method')), r.func, 'http', 'sent to ' + shows(got[0]), e.line)
                for k, want in (('data', sym('body')), ('headers', sym('headers'))):
                    x = strip(arg(e, k, None, C(None)))
                    ok = x == want or truthy(o.facts, r.eng, want) is False
                    ctx.ob('C17.once', ok, r.func, k, '{} sent is {}'.format(k, shows(x)), e.line)


def from_file(ctx):
    """a configuration that says nothing about requests"""
    for name in ('oidcrp.configure.RPConfiguration.__init__',):
        r = ctx.run(name, args={'conf': dct({'clients': dct({})}), 'entity_conf': C(None)}, harmless={'__init__'}, keep=lambda a: False)
        for o in r.returns if r else ():
            for s, p in r.get_attr(o, SELF, 'httpc_params'):
                for _, v in r.get(s, p, 'verify') if p is not None and strip(p) not in (C(None), dct({})) else ():
                    ctx.ob('C17.config', v is None or strip(v) == C(True), r.func, 'verify', 'verify is {} where nothing is configured'.format(shows(v)))


def params(ctx):
    ctx.rule('C17.config', 'verification and client certificate are taken from the configuration')
    cfg = sym('config')
    r = ctx.run('oidcrp.util.get_http_params', keep=lambda a: contains(('x',) + a, lambda t: t == cfg))
    for o in r.returns if r else ():
        v = r.value(o)
        for s, x in r.get(o, v, 'verify'):
            none = fact(s.facts, r.eng, 'none', it(cfg, 'verify')) is True or known_in(r, s.facts, 'verify', cfg) is False
            ok = x == it(cfg, 'verify') or none and (
                x == it(cfg, 'verify_ssl') or x == C(True) and known_in(r, s.facts, 'verify_ssl', cfg) is False)
            ctx.ob('C17.config', ok, r.func, 'verify', 'verify is ' + shows(x))
        for s, x in r.get(o, v, 'cert'):
            cert, key = it(cfg, 'client_cert'), it(cfg, 'client_key')
            have = known_in(r, s.facts, 'client_cert', cfg) is not False and truthy(s.facts, r.eng, cert) is not False
            hkey = known_in(r, s.facts, 'client_key', cfg) is not False and truthy(s.facts, r.eng, key) is not False
            ok = x == ('tup', (cert, key)) if have and hkey else x == cert if have else x is None
            ctx.ob('C17.config', ok, r.func, 'cert', 'cert is ' + shows(x))
