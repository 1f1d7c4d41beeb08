"""DPoP proofs are bound to one request and reveal no private key."""
from ..q import *
from ..terms import C, is_const, show

MOD = 'oidcrp.oauth2.add_on.dpop.'
X = sym('service_context')
MINE = it(at(X, 'add_on'), 'dpop')
INFO = at(X, 'provider_info')
SUPPORTED = 'dpop_signing_alg_values_supported'


def check(ctx):
    ctx.rule('C28.bound', 'a proof names the method and URL of the request', 4)
    ctx.rule('C28.fresh', 'a fresh identifier and the current time', 4)
    ctx.rule('C28.public', 'the key in the header is the public part', 2)
    ctx.rule('C28.signed', 'signed with that key, using the algorithm recorded with it', 4)
    ctx.rule('C28.alg', 'the algorithm is configured, supported and asymmetric', 4)
    ctx.rule('C28.header', 'the proof is added to the headers', 2)
    ctx.rule('C28.refused', 'wrong types and the unsigned algorithm are refused', 3)
    ctx.rule('C28.verified', 'only what the key in the header verifies is taken from a proof', 2)
    ctx.rule('C28.placed', 'the token and user info requests carry proofs', 2)
    header(ctx)
    proof(ctx)
    refused(ctx)
    verified(ctx)
    placed(ctx)


def header(ctx):
    name = MOD + 'dpop_header'
    r = ctx.run(name, opaque={'create_header'},
                keep=lambda a: a[0] in ('in', 'T') and any(x in (it(MINE, 'key'), MINE, it(MINE, 'alg'), it(KW, 'endpoint'), KW)
                                                           for x in a[1:]) or
                any(involves(x, 'alg2keytype', 'startswith') for x in a[1:]))
    for o in r.outs if r else ():
        if o.kind == 'raise':
            continue
        v = r.value(o)
        made = calls(o, 'create_header')
        if not made:
            ctx.ob('C28.header', base_of(v) == sym('headers'), name, 'no proof', 'the headers are lost: ' + show(v)[:60])
            have = truthy(o.facts, r.eng, it(MINE, 'key'))
            ctx.ob('C28.header', have is not True, name, 'no proof', 'no proof although there is a key')
            continue
        e, f = made[-1][1], made[-1][2]
        for s, h in r.get(o, v, 'dpop'):
            ctx.ob('C28.header', h is not None and strip(h) == strip(e.res), name, 'dpop', 'the header is ' + shows(h)[:60])
        ctx.ob('C28.header', v[0] == 'obj' and (base_of(v) == sym('headers') or truthy(o.facts, r.eng, sym('headers')) is False), name,
               'headers', 'other headers are lost')
        p = strip(r.eng.freeze(o.state, e.recv))
        key = keyof(r, o, e.recv)
        claims(ctx, r, o, f, p, key, name)


def keyof(r, o, ref):
    for s, v in r.get_attr(o, ref, 'key'):
        return strip(v)


def claims(ctx, r, o, f, p, key, name):
    got = {}
    for k in ('typ', 'alg', 'jwk', 'jti', 'htm', 'htu', 'iat'):
        got[k] = [strip(x) if x is not None else None for _, x in r.get(o, p, k)]

    def each(rule, k, ok, what):
        for x in got[k] or [None]:
            ctx.ob(rule, x is not None and ok(x), name, k, what.format(shows(x)[:80]))
    each('C28.bound', 'htm', lambda x: x == sym('http_method'), 'the method named is {}')
    url = ('item', INFO, sym('service_endpoint'))
    each('C28.bound', 'htu', lambda x: x == it(KW, 'endpoint') and known_in(r, o.facts, 'endpoint', KW) is not False or
         x == url and (known_in(r, o.facts, 'endpoint', KW) is False or truthy(o.facts, r.eng, it(KW, 'endpoint')) is False),
         'the URL named is {}')
    each('C28.fresh', 'jti', lambda x: fresh(x), 'the identifier is {}')
    each('C28.fresh', 'iat', lambda x: is_call(x, 'utc_time_sans_frac', 'time', 'now') or is_call(x, 'int') and
         is_call(strip(x[2][0]), 'time', 'utc_time_sans_frac'), 'the time is {}')
    each('C28.signed', 'typ', lambda x: x == C('dpop+jwt'), 'the type is {}')
    minted = is_call(key, 'key_by_alg')
    ctx.ob('C28.signed', key == it(MINE, 'key') or minted, name, 'key', 'signed with ' + shows(key)[:60])
    each('C28.public', 'jwk', lambda x: is_call(x, 'serialize') and recv(x) == key and
         strip(callarg(x, 'private', 0, C(False))) == C(False), 'the key shown is {}')
    if not minted:
        each('C28.signed', 'alg', lambda x: x == it(MINE, 'alg'), 'the algorithm is {}')
        return
    ctx.ob('C28.signed', truthy(f, r.eng, it(MINE, 'key')) is False or known_in(r, f, 'key', MINE) is False, name, 'new key',
           'a new key is made although there is one')
    alg = strip(callarg(key, 'alg', 0, C(None)))
    each('C28.signed', 'alg', lambda x: x == alg, 'the algorithm is {}')
    kept = {}
    for _, e, _ in events(o, 'setitem'):
        if strip(e.recv) == MINE and is_const(strip(e.args[0])):
            kept[strip(e.args[0])[2]] = strip(e.args[1])
    ctx.ob('C28.signed', kept.get('key') == key, name, 'new key', 'the key is not kept')
    ctx.ob('C28.signed', kept.get('alg') == alg, name, 'new key', 'the algorithm of the key is not recorded')
    conf = alg[0] in ('elem', 'each') and alg[1] == it(MINE, 'sign_algs')
    ctx.ob('C28.alg', conf, name, 'configured', 'the algorithm {} is not one configured'.format(show(alg)[:60]))
    ctx.ob('C28.alg', fact(o.facts, r.eng, 'in', alg, it(INFO, SUPPORTED)) is True, name, 'supported',
           'the algorithm {} need not be supported'.format(show(alg)[:60]))
    ctx.ob('C28.alg', asymmetric(o.facts, alg), name, 'asymmetric', 'the key may be a symmetric one, which has no public part')


def fresh(x):
    while x[0] in ('attr', 'item') or is_call(x, 'str', 'rndstr', 'b64e') and not is_call(x, 'rndstr'):
        x = strip(x[1] if x[0] in ('attr', 'item') else x[2][0])
    return is_call(x, 'uuid4', 'uuid1', 'rndstr', 'token_urlsafe', 'token_hex')


def asymmetric(facts, alg):
    for a, v in facts.items():
        kt = [x for x in a[1:] if is_call(x, 'alg2keytype')]
        if a[0] == 'in' and v is True and kt and strip(kt[0][2][0] if kt[0][2] else kt[0][3][0][1]) == alg:
            c = constants(a[2])
            if c is not None and c <= {'RSA', 'EC'}:
                return True
        if a[0] == '=' and kt and v in (C('RSA'), C('EC')):
            return True
    no = {C('oct'), C('none')}
    out = {x for a, v in facts.items() if a[0] == 'eq' and v is False and any(is_call(y, 'alg2keytype') for y in a[1:]) for x in a[1:]}
    if no <= out:
        return True
    # by its name
    return any(is_call(a[1], 'startswith') and recv(a[1]) == alg and (v is False and constants(a[1][2][0]) == {'HS'} or
                                                                     v is True and 'HS' not in (constants(a[1][2][0]) or {'HS'}))
               for a, v in facts.items() if a[0] == 'T')


def proof(ctx):
    """what create_header signs: body and header claims of the proof, with its key and algorithm"""
    cls = MOD + 'DPoPProof'
    sets = {}
    for k in ('header_params', 'body_params'):
        v = class_const(ctx, ctx.prog.cls(cls), k)
        if v is None:
            ctx.unclear('{}.{} is not a constant'.format(cls, k))
            continue
        sets[('attr', SELF, k)] = lst(*sorted(v))
        want = {'typ', 'alg', 'jwk'} if k[0] == 'h' else {'jti', 'htm', 'htu', 'iat'}
        ctx.ob('C28.signed', want <= set(v), cls, k, '{} is {}'.format(k, sorted(v)))
    for m in impls(ctx, cls, 'create_header'):
        r = ctx.run(m, given=sets, unroll_max=20)
        for o in r.returns if r else ():
            v = r.value(o)
            if not ctx.ob('C28.signed', is_call(v, 'sign_compact'), m, 'sign_compact', 'the proof is ' + show(v)[:60]):
                continue
            j = recv(v)
            body = j[2][0] if j[2] else callarg(j, 'msg')
            alg = callarg(j, 'alg')
            ctx.ob('C28.signed', alg is not None and strip(alg) == it(SELF, 'alg'), m, 'alg', 'signed with algorithm ' + shows(alg)[:60])
            for k in ('jti', 'htm', 'htu', 'iat'):
                for _, x in r.get(o, body, k):
                    ctx.ob('C28.signed', x is not None and strip(x) == it(SELF, k), m, k, '{} in the body is {}'.format(k, shows(x)[:60]))
            keys = callarg(v, 'keys', 0)
            ctx.ob('C28.signed', keys is not None and strip(keys)[0] == 'obj' and [strip(op[1]) for op in strip(keys)[4]] ==
                   [('attr', SELF, 'key')], m, 'keys', 'signed with ' + shows(keys)[:60])
            heads = dict(v[3])
            for k in ('typ', 'alg', 'jwk'):
                if k in heads:
                    xs = [strip(heads[k])]
                else:
                    xs = [x for _, x in r.get(o, heads['**'], k)] if '**' in heads else [None]
                for x in xs:
                    ctx.ob('C28.signed', x is not None and strip(x) == it(SELF, k), m, k, '{} in the header is {}'.format(k, shows(x)[:60]))


def refused(ctx):
    for m in impls(ctx, MOD + 'DPoPProof', 'verify'):
        r = ctx.run(m, inline_base=False)
        for o in r.returns if r else ():
            ctx.ob('C28.refused', known_eq(o.facts, it(SELF, 'typ'), C('dpop+jwt'), r.eng), m, 'typ', 'any type is accepted')
            ctx.ob('C28.refused', known_ne(o.facts, it(SELF, 'alg'), C('none'), r.eng), m, 'alg', 'the unsigned algorithm is accepted')
            sup = [e for _, e, _ in calls(o, 'verify')]
            ctx.ob('C28.refused', bool(sup), m, 'verify', 'the claims are not verified')


def verified(ctx):
    for m in impls(ctx, MOD + 'DPoPProof', 'verify_header'):
        r = ctx.run(m)
        for o in r.returns if r else ():
            v = r.value(o)
            if v in (C(None), C(False)):
                continue
            ver = calls(o, 'verify_compact', 'verify_compact_verbose')
            if not ctx.ob('C28.verified', bool(ver), m, 'verify_compact', 'taken without verification'):
                continue
            i, e, f = ver[0]
            head = at(strip(e.recv), 'jwt', 'headers')
            keys = strip(arg(e, 'keys', 1, C(None)))
            ks = [strip(op[1]) for op in keys[4]] if keys[0] == 'obj' else []
            ok = len(ks) == 1 and is_call(ks[0], 'key_from_jwk_dict') and \
                strip(callarg(ks[0], 'jwk_dict', 0, C(None))) == it(head, 'jwk')
            ctx.ob('C28.verified', ok, m, 'keys', 'verified with ' + show(keys)[:80], e.line)
            alg = arg(e, 'sigalg')
            ctx.ob('C28.verified', alg is None or strip(alg) == it(head, 'alg'), m, 'sigalg', 'verified with ' + shows(alg)[:60], e.line)
            ctx.ob('C28.verified', arg(e, 'allow_none', 2, C(False)) == C(False), m, 'allow_none', 'unsigned proofs are taken', e.line)
            for j, s, _ in events(o, 'setitem'):
                if s.recv == SELF:
                    ctx.ob('C28.verified', j > i, m, 'claims', 'taken before verification', s.line)
                    x = strip(s.args[1])
                    ctx.ob('C28.verified', involves(x, 'verify_compact', 'verify_compact_verbose') or mentions(x, head), m, 'claims', 'takes ' + show(x)[:60], s.line)


def placed(ctx):
    name = MOD + 'add_support'
    mine = {'accesstoken': sym('the token service'), 'userinfo': sym('the user info service')}
    fn = ('func', MOD + 'dpop_header')
    for have in (('accesstoken', 'userinfo'), ('accesstoken',)):
        r = ctx.run(name, args={'services': dct({k: mine[k] for k in have})})
        for o in r.outs if r else ():
            if not ctx.ob('C28.placed', o.kind == 'return', name, 'services', 'fails for a client with ' + ' and '.join(have)):
                continue
            placed_in(ctx, r, o, fn, [(k, mine[k]) for k in have], name)


def placed_in(ctx, r, o, fn, mine, name):
    for k, svc in mine:
        if truthy(o.facts, r.eng, svc) is False:
            continue
        hooks = [v for _, v in r.get_attr(o, svc, 'construct_extra_headers')]
        have = hooks and all(any(op[0] in ('e', 'ext') and mentions(op[1], fn) for op in (h[4] if h[0] == 'obj' else ())) for h in hooks)
        ctx.ob('C28.placed', bool(have), name, k, 'requests of {} carry no proof: {}'.format(k, shows(hooks[0])[:60] if hooks else ''))
    conf = [e for _, e, _ in events(o, 'setitem') if strip(e.args[0]) == C('dpop')]
    for e in conf:
        for s, v in r.get(o, e.args[1], 'sign_algs'):
            ctx.ob('C28.placed', v is not None and strip(v) == sym('signing_algorithms'), name, 'sign_algs', 'configured are ' + shows(v)[:60])
    ctx.ob('C28.placed', len(conf) == 1, name, 'dpop', 'not configured')
