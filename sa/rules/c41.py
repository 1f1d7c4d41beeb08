"""A client works with what it was configured with, and falls back on a default only for what was not configured.

Each constructor is interpreted with configurations of known content, among them values that are false, zero or empty.
"""
import ast

from ..q import *
from ..terms import C, show

SCTX = 'oidcrp.service_context.ServiceContext'
RPH = 'oidcrp.rp_handler.RPHandler.'
REG = 'oidcmsg.oidc.RegistrationRequest'
PARAMS = {'redirect_uris': (True, True), 'client_name': (False, False), 'logo_uri': (False, False), 'contacts': (True, False)}
OK = '0' * 40


def check(ctx):
    context(ctx)
    secret(ctx)
    imported(ctx)
    clients(ctx)
    handler(ctx)
    own_keys(ctx)
    files(ctx)


def term(v):
    return dct({k: term(x) for k, x in v.items()}) if isinstance(v, dict) else lst(*v) if isinstance(v, list) else C(v)


def same(got, want):
    if got == want:
        return True
    if got[0] == 'call' and callname(got) in ('as_bytes', 'deepcopy', 'copy', 'dict', 'list') and got[2] + tuple(v for _, v in got[3]):
        return same(strip((got[2] + tuple(v for _, v in got[3]))[0]), want)
    return False


def value(r, o, name):
    for _, v in r.get_attr(o, SELF, name):
        return None if v is None else strip(r.eng.freeze(o.state, v))
    return None


def judge(ctx, rid, r, o, name, want, what):
    got = value(r, o, name)
    t = term(want)
    if got is not None and same(got, t):
        return ctx.ob(rid, True, r.func, name)
    if got is None or got[0] in ('c', 'obj') or got[0] == 'attr' and got[1] == SELF or got[0] == 'sym' or contains(got, lambda x: x[0] == 'c' and x != t and x[1] != 'str'):
        return ctx.ob(rid, False, r.func, name, '{} becomes {} where {}'.format(name, shows(got)[:80], what))
    ctx.unclear('{}: {} becomes {}'.format(r.func.dotted, name, show(got)[:80]))


GIVEN = [
    {'client_id': 'me', 'client_secret': 'a secret', 'redirect_uris': ['https://rp/cb'], 'provider_info': {'issuer': 'https://other'},
     'behaviour': {'scope': ['openid']}, 'callback': {'code': 'https://rp/code'}, 'issuer': 'https://op', 'clock_skew': 7,
     'base_url': 'https://rp', 'allow': {'issuer_mismatch': True}, 'client_preferences': {'response_types': ['code']},
     'verify_args': {'allow_sign_alg_none': False}, 'requests_dir': '', 'hash_seed': 'the seed'},
    {'client_id': '', 'client_secret': '', 'redirect_uris': [], 'provider_info': {}, 'behaviour': {}, 'callback': {}, 'issuer': 'https://op',
     'clock_skew': 0, 'base_url': '', 'allow': {}, 'client_preferences': {}, 'verify_args': {}, 'requests_dir': ''},
    {'client_secret': 'ss', 'clock_skew': 3600, 'allow': {'issuer_mismatch': False}, 'issuer': '', 'provider_info': {'issuer': 'https://op/'}},
    {},
]
DEFAULT = {'client_id': '', 'client_secret': '', 'redirect_uris': [], 'provider_info': {}, 'behaviour': {}, 'callback': {}, 'issuer': '',
           'clock_skew': 15, 'allow': {}, 'client_preferences': {}}


def made(ctx, conf, more=None, **kw):
    return ctx.run(SCTX + '.__init__', args={'config': term(conf), **({'kwargs': term(more)} if more else {})}, harmless={'__init__'}, opaque={'import_keys'},
                   watch=lambda e: e.name in ('add_symmetric', 'import_keys'), keep=lambda a: False,
                   given=dict({('attr', ('cls', REG), 'c_param'): c_param(PARAMS)}, **kw))


def context(ctx):
    ctx.rule('C41.context', 'a client has the values of its configuration, whatever they are', 30)
    ctx.rule('C41.default', 'what is not configured has its default', 15)
    ctx.rule('C41.register', 'what is configured for a registration is used for it', 6)
    for conf in GIVEN:
        r = made(ctx, conf)
        for o in r.returns if r else ():
            for k, v in conf.items():
                if k == 'issuer' and not v:
                    judge(ctx, 'C41.context', r, o, 'issuer', conf['provider_info']['issuer'], 'that of the metadata is configured')
                else:
                    judge(ctx, 'C41.context', r, o, k, v, '{!r} is configured'.format(v))
            for k, v in DEFAULT.items():
                if k not in conf:
                    judge(ctx, 'C41.default', r, o, k, v, 'nothing is configured')
        ctx.ob('C41.context', r is None or bool(r.returns), SCTX + '.__init__', 'return', 'a client can not be made')
    for more in ({'jwks_uri': 'https://rp/jwks'}, {'jwks_uri': '', 'httpc_params': {'verify': False}}):
        r = made(ctx, {'client_id': 'me'}, more)
        for o in r.returns if r else ():
            for k, v in more.items():
                judge(ctx, 'C41.context', r, o, k, v, '{!r} is given'.format(v))
    for conf in ({'client_name': 'n', 'redirect_uris': ['https://rp/cb']}, {'client_name': '', 'contacts': [], 'other': 'x'}, {}):
        r = made(ctx, conf)
        for o in r.returns if r else ():
            for k in PARAMS:
                ra = value(r, o, 'register_args')
                if ra is None or ra[0] != 'obj':
                    continue
                for _, v in r.get(o, ra, k):
                    ok = v is not None and strip(r.eng.freeze(o.state, v)) == term(conf[k]) if k in conf else v is None
                    ctx.ob('C41.register', ok, r.func, k, '{} is registered as {} when {} is configured'.format(k, shows(v), conf))


def secret(ctx):
    ctx.rule('C41.secret', 'a client secret that is configured is among the keys of the client', 4)
    for s in ('x', 'short', OK, OK * 3):
        r = made(ctx, {'client_id': 'me', 'client_secret': s, 'issuer': 'https://op', 'base_url': 'https://rp'})
        for o in r.returns if r else ():
            got = [e for _, e, _ in calls(o, 'add_symmetric')]
            ok = [e for e in got if arg(e, 'key', 1) == C(s) and arg(e, 'issuer_id', 0) == C('') and arg(e, 'usage', 2) in (None, C(None))]
            ctx.ob('C41.secret', len(ok) >= 1, r.func, 'key', 'a secret of {} characters is not made a key'.format(len(s)))


def imported(ctx):
    """keys in files or at a URL"""
    ctx.rule('C41.imported', 'keys that are configured are keys the client can use, those at a URL keys of the one they are configured for', 6)
    one, two = {'file': {'rsa': ['one.pem', 'two.pem']}, 'url': {'https://op': 'https://op/jwks'}}, {'file': {'rsa': ['one.pem']}}
    for conf, want in (({'keys': one}, one), ({'key_conf': two}, two), ({}, None), ({'keys': two, 'issuer': 'https://op'}, two)):
        r = made(ctx, conf)
        for o in r.returns if r else ():
            got = [strip(r.eng.freeze(o.state, arg(e, 'keyspec', 0, C(None)))) for e in o.events if e.kind == 'call' and e.name == 'import_keys']
            ctx.ob('C41.imported', got == ([term(want)] if want else []), r.func, 'import_keys', 'imports {} where {} is configured'.format(
                [show(x)[:60] for x in got], conf))
    r = ctx.run(SCTX + '.import_keys', args={'keyspec': term(one)}, keep=lambda a: False, opaque={'import_private_rsa_key_from_file'})
    for o in r.returns if r else ():
        files, urls = set(), set()
        for e in o.events:
            if e.kind != 'call' or e.name not in ('add_kb', 'append', 'RSAKey', 'KeyBundle'):
                continue
            if e.name == 'add_kb':
                b = strip(r.eng.freeze(o.state, arg(e, 'kb', 1, C(None))))
                urls |= {(strip(arg(e, 'issuer_id', 0)), u) for u in ('https://op/jwks',) if mentions(('x', b), C(u))}
                ours = strip(arg(e, 'issuer_id', 0)) == C('')
                ctx.ob('C41.imported', ours or strip(arg(e, 'issuer_id', 0)) == C('https://op'), r.func, 'add_kb', 'keys are bound to ' + shows(arg(e, 'issuer_id', 0)), e.line)
            if e.name == 'RSAKey':
                use = dict(e.kw).get('use')
                ctx.ob('C41.imported', use is None or strip(use) in (C('sig'), C(''), C(None)), r.func, 'use', 'a key of the client is for ' + shows(use), e.line)
            files |= {f for f in ('one.pem', 'two.pem') if any(mentions(('x', strip(r.eng.freeze(o.state, x))), C(f)) for x in all_args(e))}
        ctx.ob('C41.imported', files == {'one.pem', 'two.pem'}, r.func, 'files', 'only {} of the files are read'.format(sorted(files)))
        ctx.ob('C41.imported', urls == {(C('https://op'), 'https://op/jwks')}, r.func, 'url', 'keys at a URL are bound to {}'.format(
            [show(k) for k, _ in urls]))


def clients(ctx):
    ctx.rule('C41.client', 'a client is made of the configuration, keys, services and add-ons it was given', 20)
    ctx.rule('C41.services', 'each service is made with its own configuration', 8)
    ctx.rule('C41.addons', 'every add-on configured is added with its own arguments', 6)
    big = {'ServiceContext', 'init_services', 'do_add_ons', 'HTTPLib', 'oidcrp.service_context.ServiceContext.__init__', 'oidcrp.http.HTTPLib.__init__'}
    ons = dct({'x': dct({'function': 'f', 'kwargs': dct({})})})
    for name in impls(ctx, 'oidcrp.oauth2.Client', '__init__'):
        for has in (True, False):
            conf = dct({'client_id': 'me', 'redirect_uris': lst('https://rp/cb'), **({'add_ons': ons} if has else {})})
            r = ctx.run(name, args={'config': conf, 'services': sym('services')}, opaque=big,
                        keep=lambda a: a in (('T', sym('services')), ('T', sym('client_authn_factory'))))
            for o in r.returns if r else ():
                for ctor in ('ServiceContext', 'init_services'):
                    ctx.ob('C41.client', len(calls(o, ctor)) == 1, r.func, ctor, 'not made once')
                for _, e, _ in calls(o, 'ServiceContext'):
                    c = arg(e, 'config', 2)
                    ctx.ob('C41.client', c is not None and strip(r.eng.freeze(o.state, c)) == conf, r.func, 'config', 'works with ' + shows(c), e.line)
                    ctx.ob('C41.client', arg(e, 'keyjar', 1) == sym('keyjar'), r.func, 'keyjar', 'works with ' + shows(arg(e, 'keyjar', 1)), e.line)
                for _, e, _ in calls(o, 'init_services'):
                    d = arg(e, 'service_definitions', 0)
                    ctx.ob('C41.client', d == sym('services') or truthy(o.facts, r.eng, sym('services')) is False, r.func, 'services',
                           'has ' + shows(d), e.line)
                    f = arg(e, 'client_authn_factory', 2)
                    ctx.ob('C41.client', f == sym('client_authn_factory') or truthy(o.facts, r.eng, sym('client_authn_factory')) is False, r.func,
                           'client_authn_factory', 'authenticates with ' + shows(f), e.line)
                added = calls(o, 'do_add_ons')
                ctx.ob('C41.client', len(added) == int(has), r.func, 'add_ons', 'add-ons are not added' if has else 'add-ons are added')
                for _, e, _ in added:
                    a = arg(e, 'add_ons', 0)
                    ctx.ob('C41.client', a is not None and strip(r.eng.freeze(o.state, a)) == ons and is_call(strip(arg(e, 'services', 1)), 'init_services'),
                           r.func, 'add_ons', 'adds {} to {}'.format(shows(a), shows(arg(e, 'services', 1))), e.line)
    services(ctx)
    service(ctx)
    addons(ctx)
    callbacks(ctx)


def from_import(t, name):
    return is_call(t, 'importer') and C(name) in list(t[2]) + [v for _, v in t[3]]


def passed(r, o, e):
    """keyword arguments of a call, those given as a dictionary included"""
    res = {}
    for n, v in e.kw:
        if n != '**':
            res[n] = strip(r.eng.freeze(o.state, v))
            continue
        v = r.eng.freeze(o.state, v)
        for k in ('client_get', 'client_authn_factory', 'conf', 'first', 'second'):
            for _, x in r.get(o, v, k):
                if x is not None:
                    res[k] = strip(r.eng.freeze(o.state, x))
    return res


def services(ctx):
    name = 'oidcrp.service.init_services'
    one, two = dct({'k': C(0)}), dct({'other': C('')})
    made = {'the.A': {'conf': one}, 'the.B': {}, 'the.C': {'conf': two, 'first': C(False)}}
    defs = dct({'a': dct({'class': 'the.A', 'kwargs': dct(made['the.A']), 'post_functions': lst('after a')}), 'b': dct({'class': 'the.B'}),
                'c': dct({'class': 'the.C', 'kwargs': dct(made['the.C']), 'pre_functions': lst('before c')})})
    r = ctx.run(name, args={'service_definitions': defs}, opaque={'importer', 'gather_constructors'}, keep=lambda a: False)
    for o in r.outs if r else ():
        if not ctx.ob('C41.services', o.kind == 'return', name, 'return', 'services can not be made'):
            continue
        got = {}
        for e in o.events:
            if e.kind == 'call' and e.name == 'call':
                for c in made:
                    if made_by(e, c):
                        got.setdefault(c, []).append(passed(r, o, e))
        for c, want in made.items():
            want = dict(want, client_get=sym('client_get'), client_authn_factory=sym('client_authn_factory'))
            ctx.ob('C41.services', got.get(c) == [want], name, c, '{} is made with {}'.format(
                c, [sorted((k, show(v)) for k, v in x.items()) for x in got.get(c, ())]))
        put = [e for _, e, _ in events(o, 'setitem')]
        for c in made:
            ok = [e for e in put if contains(('x', strip(e.args[1])), lambda t: from_import(t, c)) and strip(e.args[0]) == at(strip(e.args[1]), 'service_name')]
            ctx.ob('C41.services', len(ok) == 1 or not put, name, c + ' kept', '{} is not among the services under its name'.format(c))
        for what, c, where in (('after a', 'the.A', 'post_construct'), ('before c', 'the.C', 'pre_construct')):
            ok = [e for _, e, _ in calls(o, 'gather_constructors') if any(contains(('x', strip(r.eng.freeze(o.state, x))), lambda t: t == C(what)) for x in all_args(e))
                  and any(contains(('x', strip(x)), lambda t: t[0] == 'attr' and t[2] == where and contains(t, lambda u: from_import(u, c)))
                          for x in all_args(e))]
            ctx.ob('C41.services', len(ok) == 1, name, what, 'configured functions are not used')
        ctx.ob('C41.services', len(calls(o, 'gather_constructors')) == 2, name, 'functions', 'functions are added that were not configured')


SETTINGS = {'default_authn_method': 'client_secret_post', 'http_method': 'POST', 'request_body_type': 'json', 'response_body_type': 'jwt'}
# classes, given as they are; which does not matter
CLASSES = {'msg_type': 'a message', 'response_cls': 'a response', 'error_msg': 'an error'}


FACTORY = C('the methods given')


def service(ctx):
    ctx.rule('C41.service', 'a service works with the configuration it was made with', 40)
    for name in impls(ctx, 'oidcrp.service.Service', '__init__'):
        for conf in ({}, SETTINGS, CLASSES, {'default_authn_method': '', 'path': 'x'}):
            given = any(x.arg == 'client_authn_factory' for x in ctx.prog.func(name).node.args.args)
            r = ctx.run(name, args={'conf': dct(conf) if conf else C(None), **({'client_authn_factory': FACTORY} if given else {})}, harmless={'__init__'}, keep=lambda a: False,
                        watch=lambda e: False)
            cls = name.rpartition('.')[0]
            for o in r.returns if r else ():
                got = value(r, o, 'conf')
                ctx.ob('C41.service', got is not None and (base_of(got) == dct(conf) or same(got, dct(conf))), r.func, 'conf', 'the configuration of {} is {}'.format(cls, shows(got)))
                for v in (value(r, o, 'client_authn_factory'),) if given else ():
                    ctx.ob('C41.service', v == FACTORY, r.func, 'client_authn_factory', 'the authentication methods of {} are {} where others are given'.format(cls, shows(v)))
                for k in list(SETTINGS) + list(CLASSES):
                    v = value(r, o, k)
                    if k in conf:
                        ctx.ob('C41.service', v == C(conf[k]), r.func, k, '{} is {} where {!r} is configured'.format(k, shows(v), conf[k]))
                    elif v is not None and is_const(v) and class_const(ctx, ctx.prog.cls(cls), k) is not None:
                        ctx.ob('C41.service', v == C(class_const(ctx, ctx.prog.cls(cls), k)), r.func, k,
                               '{} is {} where nothing is configured'.format(k, show(v)))


def callbacks(ctx):
    ctx.rule('C41.callbacks', 'callback URLs that are configured are those of the client', 4)
    kinds = {'redirect_uris': ['https://rp/cb'], 'post_logout_redirect_uris': ['https://rp/out'], 'backchannel_logout_uri': 'https://rp/bc',
             'frontchannel_logout_uri': 'https://rp/fc', 'request_uris': ['https://rp/req']}
    name = 'oidcrp.oidc.RP.__init__'
    for conf in (kinds, {'backchannel_logout_uri': 'https://rp/bc'}, {}):
        for old in (C(None), dct({'code': 'c'})):
            r = ctx.run(name, args={'config': term(conf)}, opaque={'ServiceContext', 'oidcrp.service_context.ServiceContext.__init__', 'init_services'},
                        keep=lambda a: False, harmless={'ServiceContext', 'init_services'}, results={'ServiceContext': sym('context')},
                        given={('attr', sym('context'), 'callback'): old})
            for o in r.returns if r else ():
                for s, cb in r.get_attr(o, sym('context'), 'callback'):
                    for _, v in r.get(s, cb, 'code') if old != C(None) else ():
                        ctx.ob('C41.callbacks', v is not None and strip(v) == C('c'), r.func, 'callback', 'the callbacks configured are {} where {} is too'.format(shows(v), conf))
                    for k in kinds:
                        for _, v in r.get(s, cb, k):
                            v = None if v is None else strip(r.eng.freeze(s, v))
                            ctx.ob('C41.callbacks', v == (term(conf[k]) if k in conf else None), r.func, k,
                                   '{} becomes {} where {} is configured'.format(k, shows(v), conf.get(k)))


def all_args(e):
    return list(e.args) + [v for _, v in e.kw]


def made_by(e, c):
    return e.res is not None and e.res[0] == 'call' and contains(('x', e.res[1]), lambda t: from_import(t, c))


def addons(ctx):
    name = 'oidcrp.oauth2.add_on.do_add_ons'
    made = {'the.f': {'first': C(0)}, 'the.g': {}, 'the.h': {'second': C('')}}
    r = ctx.run(name, args={'add_ons': dct({c[-1]: dct({'function': c, 'kwargs': dct(kw)}) for c, kw in made.items()})}, opaque={'importer'},
                keep=lambda a: False)
    for o in r.outs if r else ():
        if not ctx.ob('C41.addons', o.kind == 'return', name, 'return', 'add-ons can not be added'):
            continue
        for c, want in made.items():
            got = [e for e in o.events if e.kind == 'call' and e.name == 'call' and made_by(e, c)]
            ctx.ob('C41.addons', len(got) == 1, name, c, '{} is used {} times'.format(c, len(got)))
            for e in got:
                kw = passed(r, o, e)
                s = kw.pop('services', None) or (strip(e.args[0]) if e.args else None)
                ctx.ob('C41.addons', s == sym('services') and kw == want, name, c + ' arguments', 'used with {} and {}'.format(
                    shows(s), sorted((k, show(v)) for k, v in kw.items())), e.line)


def handler(ctx):
    ctx.rule('C41.handler', 'a handler and its clients have what the handler was given', 12)
    name = RPH + '__init__'
    for mine in (True, False):
        args = {'client_configs': sym('client_configs') if mine else C(None), 'services': sym('services') if mine else C(None)}
        r = ctx.run(name, args=args, opaque={'init_key_jar'}, keep=lambda a: a[0] in ('T', 'none') and a[1][0] == 'sym')
        for o in r.returns if r else ():
            for k, p in (('base_url', 'base_url'), ('client_configs', 'client_configs'), ('services', 'services'), ('client_cls', 'client_cls'),
                         ('keyjar', 'keyjar'), ('client_authn_factory', 'client_authn_factory'), ('hash_seed', 'hash_seed')):
                v = value(r, o, k)
                if k in args:
                    ok = v == sym(p) if mine or v is None else contains(('x', v), lambda t: t[0] == 'glob' and t[1].split('.')[-1].startswith('DEFAULT')) \
                        or v[0] == 'obj'
                    if mine and not ok:
                        # an empty table may be taken for none
                        ok = truthy(o.facts, r.eng, sym(p)) is False
                else:
                    ok = v is not None and (same(base_of(v), sym(p)) or truthy(o.facts, r.eng, sym(p)) is False)
                ctx.ob('C41.handler', ok, r.func, k, '{} becomes {}'.format(k, shows(v)))
    r = ctx.run(RPH + 'init_client', transparent={'pick_config'}, keep=lambda a: a[0] == 'in' and a[1] == C('services') or contains(
        ('x',) + a, lambda t: t == C('hash_seed')))
    for o in r.returns if r else ():
        for _, e, _ in calls(o, 'client_cls'):
            kw = dict(e.kw)
            f = kw.get('client_authn_factory')
            ctx.ob('C41.handler', f is not None and strip(f) == at(SELF, 'client_authn_factory'), r.func, 'client_authn_factory', 'is ' + shows(f), e.line)
            s = strip(r.eng.freeze(o.state, kw.get('services', C(None))))
            own = s[0] == 'item' and s[2] == C('services')
            has = [v for a, v in o.facts.items() if a[0] == 'in' and a[1] == C('services')]
            ctx.ob('C41.handler', own and True in has or s == at(SELF, 'services') and False in has, r.func, 'services',
                   'services are {} where the client {} its own'.format(show(s)[:60], 'has' if True in has else 'has not'), e.line)
        cl = strip(r.value(o))
        w = {e.args[0][2]: strip(e.args[1]) for _, e, _ in events(o, 'setattr') if contains(('x', strip(e.recv)), lambda t: t == cl or is_call(t, 'client_cls'))}
        for k in ('base_url', 'jwks_uri'):
            ctx.ob('C41.handler', w.get(k) == at(SELF, k), r.func, k, '{} of a client is {}'.format(k, shows(w.get(k))))
    for own in ('own', '', None):
        conf = {'client_id': 'me'} if own is None else {'client_id': 'me', 'hash_seed': own}
        r = ctx.run(RPH + 'init_client', args={'issuer': C('the issuer')}, transparent={'pick_config'}, keep=lambda a: False,
                    given={('attr', SELF, 'client_configs'): dct({'the issuer': dct(conf)})})
        for o in r.returns if r else ():
            w = [strip(e.args[1]) for _, e, _ in events(o, 'setattr') if e.args[0][2] == 'hash_seed']
            if own:
                ok = all(mentions(('x', x), C(own)) and not mentions(('x', x), at(SELF, 'hash_seed')) for x in w[-1:])
            else:
                ok = bool(w) and w[-1] == at(SELF, 'hash_seed')
            ctx.ob('C41.handler', ok, r.func, 'hash_seed', 'the seed of a client with {} of its own is {}'.format(
                'one' if own else 'none', shows(w[-1]) if w else 'left alone'))


def own_keys(ctx):
    """a client keeps the keys it has of its own when it gets those of the handler"""
    ctx.rule('C41.keys', 'the keys a client has of its own are still there when it has those of the handler', 1)
    kbs = [C('bundle %d' % i) for i in range(3)]
    cl = sym('the client')
    jar = dct({'': lst(*kbs[:2]), 'the client': lst(kbs[2])})
    r = ctx.run(RPH + 'init_client', transparent={'pick_config'}, results={'client_cls': cl}, types={cl: 'oidcrp.oidc.RP'},
                given={('attr', context_of(cl), 'keyjar'): jar}, keep=lambda a: False)
    for o in r.returns if r else ():
        left, put = set(kbs), False
        for e in o.events:
            to = strip(e.recv) if e.recv is not None else C(None)
            if e.kind == 'call' and e.name == 'load' and base_of(to) == jar or e.kind == 'setattr' and e.args[0] == C('keyjar') and to == context_of(cl):
                left, put = set(), False
            elif e.kind == 'call' and e.name == 'add_kb':
                left |= {strip(x) for x in all_args(e)}
            elif e.kind == 'call' and e.name.startswith('import_jwks') and not any(mentions(strip(x), at(SELF, 'keyjar')) for x in all_args(e)):
                put = True
        ctx.ob('C41.keys', put or set(kbs) <= left, r.func, 'key jar',
               'the keys of the handler replace those of the client, its secret among them')


def files(ctx):
    """the same for what is read from a configuration file"""
    ctx.rule('C41.file', 'what is in a configuration file is what is used', 8)
    name = 'oidcrp.configure.RPConfiguration.__init__'
    conf = {'clients': {'': {'a': 'b'}}, 'services': {'s': {'class': 'x'}}, 'base_url': 'https://rp/', 'hash_seed': 'the seed',
            'httpc_params': {'verify': False}, 'rp_keys': {'uri_path': 'p'}}
    for given in (conf, {**conf, 'httpc_params': {'verify': True, 'timeout': 0}}):
        r = ctx.run(name, args={'conf': term(given), 'entity_conf': C(None)}, harmless={'__init__'}, keep=lambda a: False)
        for o in r.returns if r else ():
            for k, v in given.items():
                judge(ctx, 'C41.file', r, o, 'key_conf' if k == 'rp_keys' else k, v, '{!r} is configured'.format(v))
    place(ctx)


PLACED = {'redirect_uris', 'post_logout_redirect_uris', 'frontchannel_logout_uri', 'backchannel_logout_uri', 'issuer', 'base_url'}


def place(ctx):
    """the base class fills in the domain and the port it is given, or else those that are configured, in the URIs that are listed"""
    ctx.rule('C41.place', 'domain and port, as given or configured, are filled in in all URIs of a configuration', 6)
    for cls in ctx.prog.subclasses('oidcmsg.configure.Base'):
        f = cls.dotted.startswith('oidcrp.') and ctx.prog.find_method(cls, '__init__')
        if not f:
            continue
        r = ctx.run(f.dotted, args={'conf': dct({'clients': dct({})}), 'entity_conf': C(None)}, keep=lambda a: False)
        func = r.func if r else f.dotted
        for o in r.outs if r else ():
            up = [e for _, e, _ in calls(o, '__init__') if callname(e.res) == '__init__' and any(n == 'conf' for n, _ in e.kw)]
            for e in up:
                for k in ('domain', 'port'):
                    ctx.ob('C41.place', strip(arg(e, k, None, C(None))) == sym(k), r.func, k, 'the {} given is not used: {}'.format(k, shows(arg(e, k))), e.line)
        for k in ('domain', 'port'):
            d = default_of(f, k)
            ctx.ob('C41.place', d is None or isinstance(d, ast.Constant) and not d.value, func, 'default ' + k, 'the {} configured is never used'.format(k))
        uris = ctx.prog.class_attr(cls, 'uris')
        node = uris[1] if uris else None
        if isinstance(node, (ast.Name, ast.Attribute)):
            v = ctx.prog.resolve_expr(uris[0].module, node)
            node = v[3] if v and v[0] == 'const' else None
        try:
            got = set(ast.literal_eval(node)) if node is not None else None
        except (ValueError, TypeError):
            got = None
        if got is not None:
            ctx.ob('C41.place', PLACED <= got, func, 'uris', '{} keep their placeholders'.format(sorted(PLACED - got)))


def default_of(f, name):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for p, d in list(zip(pos[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if p.arg == name:
            return d
    return None
