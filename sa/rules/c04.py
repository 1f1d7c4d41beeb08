"""ID Token and user info checks use only local policy."""
from ..q import *
from ..terms import C, show

SERVICE = 'oidcrp.service.Service'
IDT = {'sigalg': 'id_token_signed_response_alg', 'encalg': 'id_token_encrypted_response_alg',
       'encenc': 'id_token_encrypted_response_enc'}
UI = {'sigalg': 'userinfo_signed_response_alg', 'encalg': 'userinfo_encrypted_response_alg',
      'encenc': 'userinfo_encrypted_response_enc'}
ALGS = {'oidcrp.oidc.authorization.Authorization': IDT, 'oidcrp.oidc.access_token.AccessToken': IDT,
        'oidcrp.oidc.refresh_access_token.RefreshAccessToken': IDT, 'oidcrp.oidc.userinfo.UserInfo': UI}
LENIENT = ('allow_missing_kid', 'allow_sign_alg_none', 'allow_http', 'verify', 'sigalg', 'encalg', 'encenc',
           'allowed_sign_alg', 'allowed_sign_algs', 'no_verify', 'skew')
REG = at(CTX, 'registration_response')
EXTRA = ('item', at(CTX, 'behaviour'), C('verify_args'))


def check(ctx):
    ctx.rule('C04.local', 'verification runs with the client\'s own issuer, client id, key jar and clock skew')
    ctx.rule('C04.algs', 'verification runs with exactly the algorithms registered for that kind of object')
    ctx.rule('C04.on', 'signatures are always checked, and leniency exists only where it is configured')
    ctx.rule('C04.foreign', 'nothing in the response influences the verification arguments')
    done = set()
    for cls in ctx.prog.subclasses(SERVICE) + [ctx.prog.cls(SERVICE)]:
        if cls.dotted in ALGS or 'gather_verify_arguments' in cls.methods or cls.dotted == SERVICE:
            if cls.dotted not in done:
                done.add(cls.dotted)
                gather(ctx, cls.dotted, ALGS.get(cls.dotted))
    ctx.rule('C04.configured', 'what is configured for the verification of ID Tokens is what it runs with', 6)
    for n in ALGS:
        if ALGS[n] is IDT:
            configured(ctx, n)
        if n not in done:
            ctx.broken('no class ' + n)
    jwt(ctx)
    deserialise(ctx)


def gather(ctx, dotted, algs):
    r = ctx.run(dotted + '.gather_verify_arguments', types={SELF: dotted},
                watch=lambda e: e.name not in ('get_client_id',), transparent={'get_client_id'})
    if r is None:
        return
    for o in r.returns:
        v = r.value(o)

        def vals(key):
            for s, x in r.get(o, v, key):
                if x is not None and x[0] == 'item' and x[1] == EXTRA:
                    ctx.ob('C04.on', algs is not None and algs is not UI, r.func, key, 'may be set by verify_args')
                    continue
                yield s, x
        for s, x in vals('iss'):
            ctx.ob('C04.local', x == at(CTX, 'issuer'), r.func, 'iss', 'issuer expected is ' + shows(x))
        for s, x in vals('keyjar'):
            ctx.ob('C04.local', x == at(CTX, 'keyjar'), r.func, 'keyjar', 'keys are ' + shows(x))
        for s, x in vals('verify'):
            ctx.ob('C04.on', x == C(True), r.func, 'verify', 'verify is ' + shows(x))
        for s, x in vals('client_id'):
            own = at(CTX, 'client_id')
            ok = x == own or x is not None and is_call(x, 'get_client_id') or \
                x is None and truthy(s.facts, r.eng, own) is False
            ctx.ob('C04.local', ok, r.func, 'client_id', 'client id is ' + shows(x))
        if algs:
            for s, x in vals('skew'):
                ctx.ob('C04.local', x == at(CTX, 'clock_skew'), r.func, 'skew', 'clock skew is ' + shows(x))
            for key, param in algs.items():
                for s, x in vals(key):
                    if x is None:
                        ok = truthy(s.facts, r.eng, REG) is False or known_in(r, s.facts, param, REG) is False or \
                            r.eng.decide(s, ('none', REG)) is True or r.eng.decide(s, ('T', it(REG, param))) is False
                    else:
                        ok = x == it(REG, param)
                    ctx.ob('C04.algs', ok, r.func, key, '{} is {}, not what was registered as {}'.format(
                        key, shows(x), param))
        keys, other = keys_of(v)
        for key in LENIENT:
            if key in ('verify', 'skew') or key in (algs or {}):
                continue
            for s, x in vals(key):
                ok = x is None or x == ('item', at(CTX, 'allow'), C('missing_kid')) and key == 'allow_missing_kid'
                if key == 'allow_http' and x == C(True):
                    ok = any(p and a[0] == 'T' and is_call(a[1], 'startswith') and strip(recv(a[1])) == at(CTX, 'issuer') and
                             strip(callarg(a[1], 'prefix', 0) or C(None)) in (C('http://'), C('http:'))
                             for a, p in s.facts.items())
                ctx.ob('C04.on', ok, r.func, key, '{} is {}'.format(key, shows(x)))
        ctx.ob('C04.foreign', not mentions(v, sym('response')), r.func, 'response', 'the arguments depend on the response')
        if algs:
            ctx.ob('C04.foreign', not mentions(v, sym('behaviour_args')), r.func, 'behaviour_args',
                   'the arguments depend on what the caller gave')


def configured(ctx, dotted):
    """what is configured for the verification counts, before what would be used otherwise"""
    want = {'skew': 77, 'allow_missing_kid': 'as configured', 'of_its_own': 'configured too'}
    r = ctx.run(dotted + '.gather_verify_arguments', types={SELF: dotted}, given={('attr', CTX, 'behaviour'): dct({'verify_args': dct(want)})},
                keep=lambda a: False)
    for o in r.returns if r else ():
        for k, x in want.items():
            for s, v in r.get(o, r.value(o), k):
                ctx.ob('C04.configured', v is not None and strip(v) == C(x), r.func, k, 'configured as {} but verified with {}'.format(x, shows(v)[:60]))


def jwt(ctx):
    ctx.rule('C04.jwt', 'a response that is a signed or encrypted object is unpacked with the client\'s own key jar and the '
             'algorithms that hold for that service')
    r = ctx.run(SERVICE + '.parse_response', types={SELF: 'oidcrp.oidc.userinfo.UserInfo'})
    if r is None:
        return
    for o in r.outs:
        for _, e, _ in calls(o, 'JWT'):
            for s, x in kwval(e, 'key_jar', r.eng, o.state):
                ctx.ob('C04.jwt', x == at(CTX, 'keyjar'), r.func, 'key_jar', 'keys are ' + shows(x), line=e.line)
            for s, x in kwval(e, 'allowed_sign_algs', r.eng, o.state):
                ok = x is not None and is_call(x, 'get_sign_alg') and recv(x) == CTX and callarg(x, 'typ', 0) == C('userinfo')
                ctx.ob('C04.jwt', ok, r.func, 'allowed_sign_algs', 'algorithms are ' + shows(x), line=e.line)
            for n, k in (('allowed_enc_algs', 'alg'), ('allowed_enc_encs', 'enc')):
                for s, x in kwval(e, n, r.eng, o.state):
                    ok = x is not None and x[0] == 'item' and x[2] == C(k) and is_call(x[1], 'get_enc_alg_enc') and \
                        recv(x[1]) == CTX and callarg(x[1], 'typ', 0) == C('userinfo')
                    ctx.ob('C04.jwt', ok, r.func, n, 'algorithms are ' + shows(x), line=e.line)
    cx = 'oidcrp.service_context.ServiceContext.'
    for fn, typ, keys in (('get_sign_alg', 'userinfo', {None: ('userinfo_signed_response_alg',
                                                              'userinfo_signing_alg_values_supported')}),
                          ('get_sign_alg', 'id_token', {None: ('id_token_signed_response_alg',
                                                               'id_token_signing_alg_values_supported')}),
                          ('get_enc_alg_enc', 'userinfo', {'alg': ('userinfo_encrypted_response_alg',
                                                                   'userinfo_encryption_alg_values_supported'),
                                                           'enc': ('userinfo_encrypted_response_enc',
                                                                   'userinfo_encryption_enc_values_supported')}),
                          ('get_enc_alg_enc', 'id_token', {'alg': ('id_token_encrypted_response_alg',
                                                                   'id_token_encryption_alg_values_supported'),
                                                           'enc': ('id_token_encrypted_response_enc',
                                                                   'id_token_encryption_enc_values_supported')})):
        r = ctx.run(cx + fn, args={'typ': C(typ)})
        if r is None:
            continue
        for o in r.returns:
            v = r.value(o)
            for key, (mine, theirs) in keys.items():
                for s, x in ([(o.state, v)] if key is None else r.get(o, v, key)):
                    ok = x in (it(at(SELF, 'behaviour'), mine), it(at(SELF, 'provider_info'), theirs)) or x == C(None)
                    if x != it(at(SELF, 'behaviour'), mine):
                        ok = ok and known_in(r, s.facts, mine, at(SELF, 'behaviour')) is not True
                    ctx.ob('C04.jwt', ok, r.func, '{} {}'.format(typ, key or 'sign'), 'yields ' + shows(x))


def deserialise(ctx):
    ctx.rule('C04.keys', 'responses are parsed with the issuer and the key jar of the client')
    r = ctx.run('oidcrp.oauth2.Client.get_response')
    if r:
        for o in r.outs:
            for _, e, _ in calls(o, 'parse_request_response'):
                for s, x in kwval(e, 'keyjar', r.eng, o.state):
                    ok = x is None or x[-1] == 'keyjar' and contains(x, lambda t: t == sym('service')) or \
                        x == it(KW, 'keyjar')
                    ctx.ob('C04.keys', ok, r.func, 'keyjar', 'keys are ' + shows(x), line=e.line)
    r = ctx.run(SERVICE + '.parse_response')
    if r:
        for o in r.outs:
            for _, e, _ in calls(o, 'deserialize'):
                x = arg(e, 'iss')
                ctx.ob('C04.keys', x is not None and strip(x) == at(CTX, 'issuer'), r.func, 'iss',
                       'issuer is ' + shows(x), line=e.line)
                v = dict(e.kw).get('verify')
                ctx.ob('C04.on', v is None or strip(v) == C(True), r.func, 'verify', 'signatures are checked: ' + shows(v), line=e.line)
