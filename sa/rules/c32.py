"""What is negotiated is both preferred by the client and supported by the provider."""
from ..q import *
from ..terms import C, is_const, show

CLS = 'oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery'
REQ = 'oidcmsg.oidc.RegistrationRequest'
# which metadata states what is supported, according to OpenID Connect Discovery 1.0
METADATA = {
    'request_object_signing_alg': 'request_object_signing_alg_values_supported',
    'request_object_encryption_alg': 'request_object_encryption_alg_values_supported',
    'request_object_encryption_enc': 'request_object_encryption_enc_values_supported',
    'userinfo_signed_response_alg': 'userinfo_signing_alg_values_supported',
    'userinfo_encrypted_response_alg': 'userinfo_encryption_alg_values_supported',
    'userinfo_encrypted_response_enc': 'userinfo_encryption_enc_values_supported',
    'id_token_signed_response_alg': 'id_token_signing_alg_values_supported',
    'id_token_encrypted_response_alg': 'id_token_encryption_alg_values_supported',
    'id_token_encrypted_response_enc': 'id_token_encryption_enc_values_supported',
    'default_acr_values': 'acr_values_supported',
    'subject_type': 'subject_types_supported',
    'token_endpoint_auth_method': 'token_endpoint_auth_methods_supported',
    'token_endpoint_auth_signing_alg': 'token_endpoint_auth_signing_alg_values_supported',
    'response_types': 'response_types_supported',
    'grant_types': 'grant_types_supported',
    'scope': 'scopes_supported',
}
DEFAULTS = {'token_endpoint_auth_method': 'client_secret_basic', 'id_token_signed_response_alg': 'RS256'}


def check(ctx):
    ctx.rule('C32.both', "a negotiated value is one of the client's and one of the provider's", 60)
    ctx.rule('C32.order', "the client's order of preference decides", 30)
    ctx.rule('C32.unmet', 'a single-valued preference that can not be met is a failure', 20)
    ctx.rule('C32.default', 'the standard says what is supported when the provider does not', 6)
    ctx.rule('C32.unstated', 'a preference the provider says nothing about takes effect as it is', 20)
    ctx.rule('C32.source', 'it is matched with the metadata of the provider', 4)
    lists = {k: v[0] for k, v in params_of(ctx, REQ).items() if v}
    if not lists:
        ctx.unclear('the parameters of {} are not known'.format(REQ))
        return
    lists['scope'] = True
    for m in impls(ctx, CLS, 'match_preferences'):
        for pref, meta in METADATA.items():
            match(ctx, m, pref, meta, lists[pref])
        together(ctx, m, lists)
        others(ctx, m)
    for m in impls(ctx, CLS, 'update_service_context'):
        source(ctx, m)


GIVEN = {}


def run(ctx, m, prefs, info, how='pcr'):
    prefs = dct({k: lst(*v) if isinstance(v, (list, tuple)) else C(v) for k, v in prefs.items()})
    info = dct({k: lst(*v) for k, v in info.items()})
    given = {('attr', CTX, 'client_preferences'): prefs, ('attr', CTX, 'behaviour'): dct({}),
             ('attr', ('cls', REQ), 'c_param'): c_param(params_of(ctx, REQ))}
    args = {'issuer': sym('the issuer'), 'pcr': info}
    if how == 'context':
        given[('attr', CTX, 'provider_info')] = info
        args['pcr'] = C(None)
    return ctx.run(m, given=given, args=args, unroll_max=60)


def result(r, o, key):
    """the values negotiated, None when there is none and () when that is not clear"""
    res = []
    for s, b in r.get_attr(o, CTX, 'behaviour'):
        for _, v in r.get(s, b, key):
            if v is None:
                res.append(None)
                continue
            v = strip(v)
            els = [v] if is_const(v) else elements(v)
            res.append(() if els is None or not all(is_const(e) for e in els) else [e[2] for e in els])
    return res


def judge(ctx, r, pref, prefs, info, single, what):
    """the outcomes of one sample"""
    both = [v for v in prefs if v in info]
    for o in r.outs if r else ():
        if o.kind == 'raise':
            ctx.ob('C32.both', not both or not single, r.func, pref, 'fails although {} of {} is supported: {}'.format(both[:1], pref, what))
            continue
        if single and not both:
            got = result(r, o, pref)
            ctx.ob('C32.unmet', False, r.func, pref, 'no failure when none of {} is supported, uses {}: {}'.format(pref, got[:1], what))
            continue
        for got in result(r, o, pref) or [None]:
            if got == ():
                ctx.unclear('what is negotiated for {} is not clear'.format(pref))
                continue
            ctx.ob('C32.both', set(got or ()) <= set(both), r.func, pref, 'negotiates {} of {}, not {}: {}'.format(got, pref, both, what))
            want = both[:1] if single else both
            ctx.ob('C32.order', (got or []) == want, r.func, pref, 'negotiates {} of {} instead of {}: {}'.format(got, pref, want, what))
    if single and not both:
        ctx.ob('C32.unmet', r is None or bool(r.outs), r.func if r else '', pref, 'no outcome')


def match(ctx, m, pref, meta, many):
    mine = ['a', 'b', 'c']
    for info in (['c', 'b', 'x'], ['x'], ['c'], ['xa']):
        what = 'preferred {}, supported {}'.format(mine, info)
        judge(ctx, run(ctx, m, {pref: mine}, {meta: info, 'other': mine}), pref, mine, info, not many, what)
    for info in (['c', 'b'], ['ab', 'x']):
        what = "preferred 'b', supported {}".format(info)
        judge(ctx, run(ctx, m, {pref: 'b'}, {meta: info, 'other': mine}), pref, ['b'], info, True, what)
    for own in ('ab', ['ab', 'bc']):
        info = ['a', 'b', 'abc']
        judge(ctx, run(ctx, m, {pref: own}, {meta: info}), pref, ['ab'], info, own == 'ab' or not many, 'preferred {!r}, supported {}'.format(own, info))
    if pref in DEFAULTS:
        std = DEFAULTS[pref]
        for mine in (['a', std], ['a', 'b'], [std[:-2], 'a'], std, std[:-1]):
            r = run(ctx, m, {pref: mine}, {'issuer': ['x']})
            own = mine if isinstance(mine, list) else [mine]
            for o in r.outs if r else ():
                ok = o.kind == 'raise' if std not in own else o.kind == 'return' and all(x in ([std], ()) for x in result(r, o, pref))
                ctx.ob('C32.default', ok, r.func, pref, 'of {} {} is negotiated by default'.format(
                    own, result(r, o, pref) if o.kind == 'return' else 'nothing'))
    else:
        for own in (['a', 'b'], 'a'):
            r = run(ctx, m, {pref: own}, {'issuer': ['x']})
            want = ['a', 'b'] if many and own != 'a' else ['a']
            for o in r.outs if r else ():
                ok = o.kind == 'return' and all(x in (want, ()) for x in result(r, o, pref))
                ctx.ob('C32.unstated', ok, r.func, pref, 'of the preferred {} {} is used when the provider says nothing'.format(
                    own, result(r, o, pref) if o.kind == 'return' else 'nothing'))
    r = run(ctx, m, {pref: mine if isinstance(mine, list) else [mine]}, {meta: ['c', 'b', 'x']}, 'context')
    judge(ctx, r, pref, mine if isinstance(mine, list) else [mine], ['c', 'b', 'x'], not many, 'metadata of the context')


def together(ctx, m, lists):
    """one preference must not have an effect on another"""
    prefs = {k: ['a', 'b', 'c'] for k in METADATA}
    info = {v: ['c', 'b'] for v in METADATA.values()}
    r = run(ctx, m, prefs, info)
    for k in METADATA:
        judge(ctx, r, k, prefs[k], info[METADATA[k]], not lists[k], 'all preferences at once')
    info['subject_types_supported'] = ['x']
    r = run(ctx, m, prefs, info)
    for o in r.outs if r else ():
        ctx.ob('C32.unmet', o.kind == 'raise', r.func, 'subject_type', 'no failure when one of several preferences can not be met')


OTHER = {'application_type': (['web', 'native'], ['web']), 'client_name': ('the name', ['the name']), 'contacts': (['one', 'two'], ['one', 'two']),
         'of_its_own': (['x', 'y'], ['x', 'y']), 'logo_uri': (['first'], ['first']), 'require_auth_time': (True, [True]), 'default_max_age': (3600, [3600]),
         'client_uri': ('https://rp/', ['https://rp/'])}


def others(ctx, m):
    """preferences that no metadata is about"""
    ctx.rule('C32.other', 'a preference that is not matched with anything takes effect, the first of several for what has one value', 10)
    for prefs in (OTHER, {k: OTHER[k] for k in ('application_type', 'contacts')}, {'application_type': (['native', 'web'], ['native'])}):
        r = run(ctx, m, {k: v[0] for k, v in prefs.items()}, {'issuer': ['x']})
        for o in r.outs if r else ():
            if not ctx.ob('C32.other', o.kind == 'return', m, 'return', 'fails'):
                continue
            for k, v in prefs.items():
                for got in result(r, o, k):
                    if got == ():
                        ctx.unclear('{}: what is settled on for {} is not clear'.format(m, k))
                    else:
                        ctx.ob('C32.other', got == v[1], m, k, '{} becomes {} where {} is preferred'.format(k, got, v[0]))


def source(ctx, m):
    r = ctx.run(m, opaque={'match_preferences', '_update_service_context'})
    for o in r.returns if r else ():
        done = calls(o, 'match_preferences')
        if not ctx.ob('C32.source', len(done) == 1, r.func, 'match_preferences', 'the preferences are matched {} times'.format(len(done))):
            continue
        e = done[0][1]
        v = arg(e, 'pcr', 0)
        ctx.ob('C32.source', v is not None and base_of(strip(v)) in (sym('resp'), at(CTX, 'provider_info')), r.func, 'pcr',
               'the preferences are matched with ' + shows(v)[:60], e.line)
