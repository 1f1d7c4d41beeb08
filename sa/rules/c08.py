"""Provider metadata is applied completely and consistently."""
from ..messages import ways
from ..q import *
from ..terms import C, show
from .c07 import BASE, ISS, KEYS, RESP, accepted, mismatch_atom

RPH = 'oidcrp.rp_handler.RPHandler.'


def check(ctx):
    ctx.rule('C08.way', 'each service uses the endpoint that is its own', 1)
    ways(ctx, 'C08.way', ('endpoint_name',))
    discovered(ctx)
    configured(ctx)
    several(ctx)
    keys_given(ctx)
    used(ctx)


def services_of(client):
    return at(client, '_service')


def endpoint_writes(ctx, rid, r, meta, client):
    """every write of an endpoint has the URL the metadata has under the endpoint name of that very service"""
    found = False
    for o in r.outs:
        for _, e, f in events(o, 'setattr'):
            if e.args[0] != C('endpoint'):
                continue
            found = True
            srv, val = strip(e.recv), strip(e.args[1])
            k = val[2] if val[0] == 'item' and val[1] == meta else None
            if not ctx.ob(rid, k is not None, r.func, 'endpoint', 'endpoint set to ' + show(val), line=e.line):
                continue
            own = contains(srv, lambda x: x == services_of(client))
            named = known_eq(f, at(srv, 'endpoint_name'), k, r.eng) or k == at(srv, 'endpoint_name')
            ctx.ob(rid, own and named, r.func, 'service', 'endpoint {} set for {}'.format(show(k), show(srv)), line=e.line)
            free = [a for a in f if mentions(a, at(srv, 'endpoint')) or a[0] not in ('T', 'none', 'in') and mentions(a, val)
                    or contains(('x',) + a, lambda x: is_call(x) and mentions(x, val))]
            ctx.ob(rid, not free, r.func, 'condition', 'whether the endpoint is used depends on something else than its name: '
                   + '; '.join(repr(a) for a in free[:2]), line=e.line)
    ctx.ob(rid, found, r.func, 'endpoints', 'endpoints are not set')


def discovered(ctx):
    ctx.rule('C08.info', 'accepted metadata becomes the provider information and its issuer the issuer of the client')
    ctx.rule('C08.endpoints', 'services get the endpoint URL given under their endpoint name')
    ctx.rule('C08.keys', 'keys are loaded for that issuer from the key URL, or from the keys included when there is none')
    for name in impls(ctx, BASE, 'update_service_context'):
        r = ctx.run(name, keep=mismatch_atom, opaque={'match_preferences'})
        if r is None:
            continue
        endpoint_writes(ctx, 'C08.endpoints', r, RESP, ('owner', SELF))
        for o in r.outs:
            if o.kind != 'return':
                continue
            w = {e.args[0][2]: strip(e.args[1]) for _, e, _ in events(o, 'setattr') if e.recv == CTX}
            iss = w.get('issuer', ISS)
            ok = iss == it(RESP, 'issuer') or known_eq(o.facts, iss, it(RESP, 'issuer'), r.eng)
            if not ok and accepted(r, o.facts) != 'the issuers are the same':
                ok = mod_slash(iss, ISS, o.facts, r.eng) is not None
            ctx.ob('C08.info', ok, r.func, 'issuer', 'issuer becomes ' + show(iss))
            pi = w.get('provider_info')
            ctx.ob('C08.info', pi is not None and base_of(pi) == RESP, r.func, 'provider_info',
                   'provider information is ' + shows(pi))
            kj = w.get('keyjar', at(CTX, 'keyjar'))
            ok = kj == at(CTX, 'keyjar') or is_call(kj, 'KeyJar') or kj[0] == 'obj'
            ctx.ob('C08.keys', ok, r.func, 'keyjar', 'key jar becomes ' + show(kj))
            loads = [e for _, e, _ in calls(o, *KEYS)]
            for e in loads:
                i = arg(e, 'issuer_id', 0) or arg(e, 'issuer', 0)
                i = strip(i) if i else None
                ok = i is not None and (i == iss or known_eq(o.facts, i, iss, r.eng))
                ctx.ob('C08.keys', ok, r.func, e.name, 'keys are bound to ' + shows(i), line=e.line)
                ctx.ob('C08.keys', e.recv is not None and strip(e.recv) in (at(CTX, 'keyjar'), kj), r.func, 'key jar',
                       'keys are loaded into ' + shows(e.recv), line=e.line)
            uri = [e for e in loads if names_source(e, 'jwks_uri')]
            inc = [e for e in loads if names_source(e, 'jwks')]
            ctx.ob('C08.keys', len(uri) + len(inc) == len(loads), r.func, 'source', 'keys come from somewhere else')
            has_uri = known_in(r, o.facts, 'jwks_uri', RESP)
            if has_uri is not False:
                ctx.ob('C08.keys', len(uri) == 1, r.func, 'jwks_uri', 'the key URL is not used')
                ctx.ob('C08.keys', not inc, r.func, 'jwks', 'included keys are used next to a key URL')
            elif known_in(r, o.facts, 'jwks', RESP) is not False:
                ctx.ob('C08.keys', len(inc) == 1, r.func, 'jwks', 'the keys included are not used')
        mp = [e for o in r.returns for _, e, _ in calls(o, 'match_preferences')]
        if name.startswith('oidcrp.oidc.'):
            ctx.ob('C08.info', bool(mp), r.func, 'match_preferences', 'preferences are not matched')


def names_source(e, name):
    return any(strip(v) == it(RESP, name) for v in list(e.args) + [v for _, v in e.kw])


def configured(ctx):
    ctx.rule('C08.configured', 'configured metadata is applied to the services of the client in the same way')
    ctx.rule('C08.issuer', 'the issuer reported is that of the metadata or of the client')
    r = ctx.run(RPH + 'do_provider_info')
    if r is None:
        return
    found = set()
    for o in r.outs:
        for _, e, f in events(o, 'setattr'):
            if e.args[0] == C('endpoint'):
                found |= set(x for x in walk(strip(e.recv)) if x[0] == 'attr' and x[2] == '_service')
    ctx.ob('C08.configured', len(found) > 0, r.func, 'endpoints', 'endpoints are not set')
    for x in found:
        cl = x[1]
        part = _Part(r, [o for o in r.outs if any(e.args[0] == C('endpoint') and mentions(strip(e.recv), x)
                                                  for _, e, _ in events(o, 'setattr'))])
        endpoint_writes(ctx, 'C08.configured', part, at(context_of(cl), 'provider_info'), cl)
    for o in r.returns:
        v = r.value(o)
        ok = v[0] == 'item' and v[2] == C('issuer') and v[1][0] == 'attr' and v[1][2] == 'provider_info' or \
            v[0] == 'attr' and v[2] == 'issuer'
        cntx = (v[1][1] if v[0] == 'item' else v[1]) if ok else None
        ok = ok and cntx[0] == 'attr' and cntx[2] == '_service_context'
        ctx.ob('C08.issuer', ok, r.func, 'issuer', 'returns ' + show(v))
        if not ok:
            continue
        dyn = calls(o, 'dynamic_provider_info_discovery')
        if truthy(o.facts, r.eng, at(cntx, 'provider_info')) is not True:
            ctx.ob('C08.issuer', len(dyn) == 1 and arg(dyn[0][1], 'client', 0) == cntx[1], r.func, 'discovery',
                   'no metadata and no discovery')
        if v[0] == 'attr':
            ctx.ob('C08.issuer', known_in(r, o.facts, 'issuer', at(cntx, 'provider_info')) is not True, r.func, 'issuer',
                   'the issuer of the metadata is not used')
        for _, e, f in calls(o, *KEYS):
            if e.recv is None or strip(e.recv) != at(cntx, 'keyjar'):
                ctx.ob('C08.configured', False, r.func, e.name, 'keys go to ' + shows(e.recv), line=e.line)
                continue
            vals = [strip(x) for x in list(e.args) + [y for _, y in e.kw]]
            ok = at(cntx, 'issuer') in vals or it(at(cntx, 'provider_info'), 'issuer') in vals or \
                e.name == 'add_url' and all(contains(x, lambda y: y == it(at(cntx, 'provider_info'), 'keys')) for x in vals)
            ctx.ob('C08.configured', ok, r.func, e.name, 'keys are bound to ' + ', '.join(show(x) for x in vals), line=e.line)


def several(ctx):
    """with several endpoints in the metadata, one of no service among them, every service gets its own"""
    ctx.rule('C08.several', 'each service whose endpoint is in the metadata gets it, whatever else is there')
    cl = sym('the client')
    names = ['a_endpoint', 'b_endpoint', 'missing_endpoint']
    services = [sym('service ' + n) for n in names]
    info = {'issuer': 'https://op', 'x_endpoint': 'https://op/x', 'b_endpoint': 'https://op/b', 'other': 'o',
            'a_endpoint': 'https://op/a'}
    given = {('attr', s, 'endpoint_name'): C(n) for s, n in zip(services, names)}
    given.update({('attr', s, 'endpoint'): C('') for s in services})
    def judge(o):
        return {e.recv: e.args[1] for _, e, _ in events(o, 'setattr') if e.args[0] == C('endpoint')}
    for name, owner, args in ((RPH + 'do_provider_info', cl, {'client': cl}),) + tuple(
            (n, ('owner', SELF), {'resp': dct(info)}) for n in impls(ctx, BASE, 'update_service_context')):
        g = dict(given)
        g[('attr', owner, '_service')] = dct({'s%d' % i: s for i, s in enumerate(services)})
        g[('attr', context_of(owner), 'provider_info')] = dct(info)
        g[('attr', context_of(owner), 'issuer')] = C('https://op')
        r = ctx.run(name, args=args, types={cl: 'oidcrp.oidc.RP'}, given=g, keep=lambda a: False,
                    opaque={'match_preferences'})
        want = {services[0]: C('https://op/a'), services[1]: C('https://op/b')}
        outs = [o for o in r.returns if all(truthy(o.facts, r.eng, x) is not False for x in [cl] + services)
                and not calls(o, 'get_client_from_session_key')] if r else ()
        for o in outs:
            got = judge(o)
            ctx.ob('C08.several', got == want, r.func, 'endpoints',
                   'endpoints become ' + ', '.join('{}: {}'.format(show(k), show(v)) for k, v in got.items()))


def keys_given(ctx):
    """the keys that configured metadata comes with are loaded, each for whom it is given"""
    ctx.rule('C08.given', 'keys in configured metadata are all loaded, for the issuer they are given for or that of the client', 4)
    cl = sym('the client')
    cx = context_of(cl)
    name = RPH + 'do_provider_info'
    keys = {'url': dct({'https://op': 'https://op/jwks', 'https://other': 'https://other/jwks'}), 'file': dct({'jwks': 'a file', 'rsa': 'another file'})}
    for kinds in (('url',), ('file',), ('url', 'file')):
        info = dct({'issuer': 'https://op', 'keys': dct({k: keys[k] for k in kinds})})
        r = ctx.run(name, args={'client': cl}, types={cl: 'oidcrp.oidc.RP'}, keep=lambda a: False,
                    given={('attr', cl, '_service'): dct({}), ('attr', cx, 'provider_info'): info, ('attr', cx, 'issuer'): C('https://op')})
        for o in r.returns if r else ():
            if truthy(o.facts, r.eng, cl) is False:
                continue
            done = [(e.name, [strip(r.eng.freeze(o.state, x)) for x in list(e.args) + [v for _, v in e.kw]]) for _, e, _ in calls(o, *KEYS)
                    if e.recv is not None and strip(e.recv) == at(cx, 'keyjar')]
            if 'url' in kinds:
                got = {tuple(a[:2]) for n, a in done if n == 'add_url'}
                want = {(C(i), C(i + '/jwks')) for i in ('https://op', 'https://other')}
                ctx.ob('C08.given', got == want, r.func, 'url', 'keys are fetched for ' + ', '.join(' '.join(show(x) for x in a) for a in sorted(got, key=repr)))
            if 'file' in kinds:
                for f in ('a file', 'another file'):
                    ok = any(C('https://op') in a and any(mentions(('x', x), C(f)) for x in a) for n, a in done if n != 'add_url')
                    ctx.ob('C08.given', ok, r.func, 'file', 'the keys of {} are not loaded for the issuer'.format(f))


class _Part:
    def __init__(self, r, outs):
        self.__dict__.update(r.__dict__)
        self.outs = outs


def used(ctx):
    ctx.rule('C08.used', 'the URL a request goes to is the endpoint set for the service, else the one in the metadata')
    for c in ctx.prog.subclasses('oidcrp.service.Service'):
        if not ctx.prog.class_attr(c, 'endpoint_name') or not class_const(ctx, c, 'endpoint_name'):
            continue
        r = ctx.run(c.dotted + '.get_endpoint')
        for o in r.returns if r else ():
            v = r.value(o)
            ep = at(SELF, 'endpoint')
            ok = v == ep or v == ('item', at(CTX, 'provider_info'), C(class_const(ctx, c, 'endpoint_name'))) \
                or v == ('item', at(CTX, 'provider_info'), at(SELF, 'endpoint_name'))
            if v != ep:
                ok = ok and truthy(o.facts, r.eng, ep) is not True
            ctx.ob('C08.used', ok, r.func, 'endpoint', 'endpoint is ' + show(v))
    for name in impls(ctx, 'oidcrp.entity.Entity', 'get_service_by_endpoint_name'):
        r = ctx.run(name)
        for o in r.returns if r else ():
            v = r.value(o)
            if v == C(None):
                continue
            ok = contains(v, lambda x: x == at(SELF, '_service')) and \
                known_eq(o.facts, at(v, 'endpoint_name'), sym('endpoint_name'), r.eng)
            ctx.ob('C08.used', ok, r.func, 'service', 'service found is ' + show(v))
