"""Request objects are signed, addressed and encrypted as asked for."""
from ..q import *
from ..terms import C, is_const, show

AUTH = 'oidcrp.oidc.authorization.Authorization'
ENC = 'oidcrp.oidc.utils.request_object_encryption'
REQ = sym('req')
PARTS = {'request_object_encryption', 'make_openid_request', 'store_request_on_file', 'construct_request_uri'}
ALGS = ('request_object_signing_alg', 'algorithm')


def check(ctx):
    ctx.rule('C27.whole', 'a request object contains the whole request', 4)
    ctx.rule('C27.signed', "it is signed with the client's keys, unsigned only if that is the algorithm", 8)
    ctx.rule('C27.alg', 'the algorithm is the one asked for, the one configured, or RS256', 4)
    ctx.rule('C27.issued', 'it is issued by the client', 4)
    ctx.rule('C27.addressed', 'it is addressed to the provider', 4)
    ctx.rule('C27.encrypted', "with encryption configured it is encrypted with the provider's keys or fails", 6)
    ctx.rule('C27.used', 'the signed and encrypted object is what is sent or stored', 6)
    ctx.rule('C27.expiry', 'it expires when that was asked for', 4)
    ctx.rule('C27.left', 'only it and the required parameters remain', 16)
    ctx.rule('C27.file', "by reference it is written to the client's own file that belongs to the URL", 6)
    for m in impls(ctx, AUTH, 'construct_request_parameter'):
        built(ctx, m)
        expiry(ctx, m)
    for m in impls(ctx, AUTH, 'get_request_object_signing_alg'):
        algorithm(ctx, m)
    encryption(ctx)
    for m in impls(ctx, AUTH, 'oidc_post_construct'):
        rest(ctx, m)
    for m in impls(ctx, AUTH, 'store_request_on_file'):
        stored(ctx, m)
    filename(ctx)
    made_up(ctx)


# ---------------------------------------------------------------------------------------------- signing

def built(ctx, m):
    named = lambda k: lambda a: a in (('in', C(k), KW), ('none', it(KW, k))) or \
        k == 'keys' and any(is_call(x, 'get_request_object_signing_alg') for x in a[1:])
    for k in ('keys', 'issuer', 'recv'):
        r = ctx.run(m, opaque=PARTS | {'get_request_object_signing_alg'}, keep=named(k))
        for o in r.returns if r else ():
            made = calls(o, 'make_openid_request')
            if not ctx.ob('C27.signed', len(made) == 1, r.func, 'make_openid_request', 'no request object is made'):
                continue
            i, e, f = made[0]
            arq = strip(arg(e, 'arq', 0))
            ops = all_ops(arq)
            ctx.ob('C27.whole', base_of(arq) == REQ and all(op[0] == 'set' for op in ops), r.func, 'make_openid_request',
                   'the object is made of {}'.format(show(arq)[:80]), e.line)
            for j, e2, f2 in events(o, 'setitem'):
                if j > i and base_of(strip(e2.recv)) == REQ and strip(e2.args[0]) not in (C('request'), C('request_uri')):
                    ctx.ob('C27.whole', False, r.func, 'later ' + shows(e2.args[0]), 'set only after the object is made', e2.line)
            have = known_in(r, f, k, KW)
            for _, v in kwval(e, k, r.eng, o.state) or [(None, None)]:
                v = strip(v) if v is not None else None
                if k == 'keys':
                    signing(ctx, r, e, f, v, have)
                elif k == 'issuer':
                    mine = v == it(KW, k) and f.get(('none', it(KW, k))) is not True and have is not False
                    ctx.ob('C27.issued', mine or v == at(CTX, 'client_id'), r.func, 'issuer', 'issued by ' + shows(v), e.line)
                else:
                    mine = v == it(KW, k) and f.get(('none', it(KW, k))) is not True and have is not False
                    op = v in (it(at(CTX, 'provider_info'), 'issuer'), at(CTX, 'issuer'))
                    ctx.ob('C27.addressed', mine or op, r.func, 'recv', 'addressed to ' + shows(v), e.line)
            enc = [x for _, x, _ in calls(o, 'request_object_encryption')]
            if not ctx.ob('C27.used', len(enc) == 1 and strip(arg(enc[0], 'msg', 0)) == e.res, r.func, 'request_object_encryption',
                          'what is made does not go through encryption'):
                continue
            ctx.ob('C27.used', strip(arg(enc[0], 'service_context', 1)) == CTX, r.func, 'request_object_encryption',
                   'encryption is not by the settings of this client')
            through(ctx, r, o, enc[0])


def expiry(ctx, m):
    for alg in ('none', 'RS256', 'ES256'):
        for given in (60, 0):
            r = ctx.run(m, opaque=PARTS | {'get_request_object_signing_alg'}, results={'get_request_object_signing_alg': C(alg)}, keep=lambda a: False,
                        args={'expires_in': C(given), 'req': dct({'a': 'b'}), 'kwargs': dct({'service': 'this'})})
            for o in r.returns if r else ():
                for i, e, f in calls(o, 'make_openid_request'):
                    for s, v in r.get(o, arg(e, 'arq', 0), 'exp'):
                        ok = v is None if not given else v is not None and contains(strip(v), lambda t: t == C(given)) \
                            and contains(('x', strip(v)), lambda t: is_call(t, 'utc_time_sans_frac', 'time_sans_frac', 'time', 'timestamp', 'utc_now', 'now'))
                        ctx.ob('C27.expiry', ok, r.func, 'exp', 'meant to last {} seconds under {}, but exp is {}'.format(given, alg, shows(v)[:60]), e.line)


def signing(ctx, r, e, f, v, have):
    if v is None:
        # nothing to sign with: the library refuses
        noalg = any(a[0] == 'T' and not val and is_call(a[1], 'get_request_object_signing_alg') for a, val in f.items())
        ctx.ob('C27.signed', noalg, r.func, 'keys', 'no keys to sign with', e.line)
    elif v == it(KW, 'keys'):
        ctx.ob('C27.signed', have is not False, r.func, 'keys', 'signed with ' + show(v), e.line)
    elif v == at(CTX, 'keyjar'):
        ctx.ob('C27.signed', have is False, r.func, 'keys', 'the keys that were given are not used', e.line)
    else:
        ctx.ob('C27.signed', unsigned_known(f) and constants(v) == set(), r.func, 'keys', 'signed with {}'.format(show(v)[:80]), e.line)


def unsigned_known(f):
    return any(a[0] == '=' and v == C('none') and (is_call(a[1], 'get_request_object_signing_alg') or
                                                   mentions(a[1], 'request_object_signing_alg')) for a, v in f.items())


def through(ctx, r, o, enc):
    how = [(x, f) for _, x, f in events(o, 'setitem') if base_of(strip(x.recv)) == REQ and
           strip(x.args[0]) in (C('request'), C('request_uri'))]
    if not ctx.ob('C27.used', len(how) == 1, r.func, 'request', 'the object is put in the request {} times'.format(len(how))):
        return
    x, f = how[0]
    v = strip(r.eng.freeze(o.state, x.args[1]))
    by_value = fact(f, r.eng, 'eq', sym('request_param'), C('request'))
    if strip(x.args[0]) == C('request'):
        ctx.ob('C27.used', v == enc.res and by_value is not False and known_ne(f, sym('request_param'), C('request'), r.eng) is not True,
               r.func, 'request', 'sent is ' + show(v)[:80], x.line)
        return
    ok = is_call(v, 'store_request_on_file') and strip(callarg(v, 'req', 0)) == enc.res
    ctx.ob('C27.used', ok and not known_eq(f, sym('request_param'), C('request'), r.eng), r.func, 'request_uri',
           'referred to is ' + show(v)[:80], x.line)


def algorithm(ctx, m):
    beh = at(CTX, 'behaviour')
    r = ctx.run(m, keep=lambda a: a[0] in ('in', 'T'))
    seen = set()
    for o in r.outs if r else ():
        if o.kind != 'return':
            ctx.ob('C27.alg', False, r.func, 'raise', 'fails with ' + str(o.value[1]))
            continue
        v, f = r.value(o), o.facts
        no = []         # those above in the order have to be absent (or empty)
        for k in ALGS:
            no.append(known_in(r, f, k, KW) is False or truthy(f, r.eng, it(KW, k)) is False)
        configured = known_in(r, f, ALGS[0], beh) is False or truthy(f, r.eng, it(beh, ALGS[0])) is False
        if v == it(KW, ALGS[0]):
            ok = True
        elif v == it(KW, ALGS[1]):
            ok = no[0]
        elif v == it(beh, ALGS[0]):
            # an empty first argument stands for: not asked for
            ok = no[0] and (no[1] or known_in(r, f, ALGS[0], KW) is not False)
        else:
            ok = v == C('RS256') and no[0] and configured
        seen.add(v)
        ctx.ob('C27.alg', ok, r.func, show(v)[:60], 'signs with {} where something else is asked for'.format(show(v)[:60]))
    if r:
        for want in (it(KW, ALGS[0]), it(beh, ALGS[0])):
            ctx.ob('C27.alg', want in seen, r.func, show(want)[:60], 'never used')


# ---------------------------------------------------------------------------------------------- encryption

def key_asked_for(ctx):
    """encrypted with the key that was asked for"""
    for kid in ('the key', None):
        for more in ({}, {'kid': 'other', 'sig_kid': 'other'}):
            kw = {'request_object_encryption_alg': 'RSA-OAEP', 'request_object_encryption_enc': 'A128GCM', 'target': 'the provider', **more}
            if kid:
                kw['enc_kid'] = kid
            r = ctx.run(ENC, args={'kwargs': dct(kw)}, opaque={'alg2keytype'}, keep=lambda a: False)
            for o in r.returns if r else ():
                for _, e, _ in calls(o, 'get_encrypt_key', 'get'):
                    if e.name == 'get' and not any(x == C('enc') for x in e.args):
                        continue
                    got = dict(e.kw).get('kid', C(''))
                    ctx.ob('C27.encrypted', strip(got) in ((C(kid),) if kid else (C(''), C(None))), r.func, 'kid', 'the key used is {} where {} is asked for'.format(
                        shows(got), kid), e.line)


def encryption(ctx):
    key_asked_for(ctx)
    sc = sym('service_context')
    beh = at(sc, 'behaviour')
    k1, k2 = 'request_object_encryption_alg', 'request_object_encryption_enc'
    r = ctx.run(ENC, keep=lambda a: a[0] in ('in', 'T') and any(x in ((C(k1)), it(KW, k1), it(beh, k1)) for x in a[1:]))
    for o in r.returns if r else ():
        v, f = r.value(o), o.facts
        if v == sym('msg'):
            asked = known_in(r, f, k1, KW)
            if asked is True:
                ok = truthy(f, r.eng, it(KW, k1)) is False
            elif asked is False:
                ok = known_in(r, f, k1, beh) is False or truthy(f, r.eng, it(beh, k1)) is False
            else:
                ok = all(known_in(r, f, k1, c) is False or truthy(f, r.eng, it(c, k1)) is False for c in (KW, beh))
            ctx.ob('C27.encrypted', ok, r.func, 'in the clear', 'not encrypted although encryption may be configured')
            continue
        if not ctx.ob('C27.encrypted', is_call(v, 'encrypt'), r.func, 'result', 'the result is ' + show(v)[:80]):
            continue
        j = recv(v)
        base = j
        while base and base[0] == 'obj':
            base = base[3]
        ok = is_call(base, 'JWE') and strip(base[2][0] if base[2] else callarg(base, 'msg')) == sym('msg')
        if ctx.ob('C27.encrypted', ok, r.func, 'JWE', 'what is encrypted is ' + shows(base)[:80]):
            for p, k in (('alg', k1), ('enc', k2)):
                a = callarg(base, p)
                ctx.ob('C27.encrypted', a is not None and strip(a) in (it(KW, k), it(beh, k)), r.func, p, '{} is {}'.format(p, shows(a)[:60]))
            alg = callarg(base, 'alg')
            if strip(alg) == it(beh, k1):
                ctx.ob('C27.encrypted', known_in(r, f, k1, KW) is not True, r.func, 'alg', 'what was asked for is not used')
        keys = v[2][0] if v[2] else callarg(v, 'keys')
        ok = is_call(keys, 'get_encrypt_key', 'get') and recv(keys) == at(sc, 'keyjar') and \
            strip(callarg(keys, 'issuer_id', 1, C(''))) == it(KW, 'target')
        ctx.ob('C27.encrypted', ok, r.func, 'keys', 'encrypted with ' + shows(keys)[:80])


# ---------------------------------------------------------------------------------------------- what remains

def rest(ctx, m):
    base = {'client_id': 'cid', 'scope': lst('openid'), 'response_type': lst('code'), 'redirect_uri': 'uri', 'state': 's', 'nonce': 'n'}
    for more in ({'display': 'page', 'acr_values': lst('1'), 'prompt': 'login', 'max_age': 10, 'x_ext': 'e'},
                 {'login_hint': 'lh', 'ui_locales': lst('en'), 'claims_locales': lst('en'), 'id_token_hint': 'idt', 'response_mode': 'fragment'},
                 {'code_challenge': 'cc', 'code_challenge_method': 'S256', 'resource': lst('r'), 'audience': lst('a')}):
        left(ctx, m, {**base, **more})


def left(ctx, m, full):
    for required in (('client_id', 'response_type', 'redirect_uri', 'scope'), ('client_id', 'response_type')):
        for how in ('request', 'request_uri'):
            r = ctx.run(m, opaque=PARTS | {'get_request_object_signing_alg'}, results={'required_parameters': lst(*required)},
                        harmless=PARTS | {'get_request_object_signing_alg', 'required_parameters'},
                        args={'req': dct(full), 'kwargs': dct({'request_param': how, 'service': sym('service')})})
            for o in r.returns if r else ():
                v = r.value(o)
                for k in list(full) + ['request', 'request_uri', 'claims', 'exp']:
                    for _, x in r.get(o, v, k):
                        want = k in required or k == how
                        ctx.ob('C27.left', (x is not None) == want, m, k + ' with ' + how,
                               '{} in the request'.format('still' if x is not None else 'not'))
                        if k in full and x is not None and want:
                            ctx.ob('C27.left', strip(x) == strip(dct(full)[4][list(full).index(k)][2]), m, k + ' with ' + how, 'has been changed')
                for _, e, _ in calls(o, 'make_openid_request'):
                    arq = strip(arg(e, 'arq', 0))
                    for k in full:
                        for _, x in r.get(o, arq, k):
                            ctx.ob('C27.whole', x is not None, m, k, 'is not in the request object')


# ---------------------------------------------------------------------------------------------- by reference

def stored(ctx, m):
    r = ctx.run(m, opaque={'construct_request_uri', 'filename_from_webname'})
    web = ('item', it(at(CTX, 'registration_response'), 'request_uris'), C(0))
    for o in r.returns if r else ():
        v = r.value(o)
        op = calls(o, 'open')
        wr = [e for _, e, _ in calls(o, 'write', 'writelines', 'write_text') ]
        if not ctx.ob('C27.file', len(op) == 1 and len(wr) == 1, r.func, 'write', 'not written to one file'):
            continue
        e = op[0][1]
        name = strip(arg(e, 'file', 0))
        ctx.ob('C27.file', strip(arg(wr[0], 's', 0)) == sym('req'), r.func, 'write', 'what is written is ' + shows(arg(wr[0], 's', 0))[:60])
        if is_call(name, 'filename_from_webname'):
            u = callarg(name, 'webname', 0)
            ok = recv(name) == CTX and strip(u) == v and base_of(v) is not None and v == web
        else:
            ok = name[0] == 'item' and v[0] == 'item' and is_call(name[1], 'construct_request_uri') and name[1] == v[1] and \
                name[2] == C(0) and v[2] == C(1)
        ctx.ob('C27.file', ok, r.func, 'file', 'writes {} for {}'.format(show(name)[:60], show(v)[:60]), e.line)


def filename(ctx):
    """samples of the two kinds: below the client's URL, and not"""
    for m in impls(ctx, 'oidcrp.service_context.ServiceContext', 'filename_from_webname'):
        good = {'https://rp.example.com/req/a.jwt': 'req/a.jwt', 'https://rp.example.com/rq12345': 'rq12345'}
        inside = {'https://rp.example.com//etc/passwd': 'etc/passwd'}
        bad = ['https://evil.example.com/req/a.jwt', 'https://rp.example.com/../x', 'https://rp.example.com/req/../../x',
               'https://rp.example.com//etc/passwd', 'https://rp.example.community/a', 'file:///etc/passwd', 'https://evil.example.com/https://rp.example.com/a', '/etc/passwd']
        for base in ('https://rp.example.com', 'https://rp.example.com/'):
            for web in list(good) + bad:
                r = ctx.run(m, args={'webname': C(web)}, given={('attr', SELF, 'base_url'): C(base)})
                for o in r.outs if r else ():
                    if o.kind == 'raise':
                        ctx.ob('C27.file', web in bad, m, web, 'no file for a URL of the client')
                        continue
                    v = r.value(o)
                    if not is_const(v):
                        ctx.unclear('{}: {}'.format(m, show(v)[:80]))
                        continue
                    ctx.ob('C27.file', v[2] in (good.get(web), inside.get(web)), m, web, '{} leads to file {}'.format(web, show(v)[:60]))


def made_up(ctx):
    r = ctx.run('oidcrp.oidc.utils.construct_request_uri')
    for o in r.returns if r else ():
        v = r.value(o)
        if not ctx.ob('C27.file', v[0] == 'tup' and len(v[1]) == 2, r.func, 'result', 'yields ' + show(v)[:80]):
            continue
        f, w = strip(v[1][0]), strip(v[1][1])
        fn = f[2][-1] if is_call(f, 'join') and f[2] else None
        wp, fp = [strip(x) for x in parts(w)], [strip(x) for x in parts(strip(fn))] if fn is not None else None
        ok = fn is not None and strip(f[2][0]) == sym('local_dir') and len(f[2]) == 2 and wp[-len(fp):] == fp and \
            wp[:-len(fp)] in ([sym('base_path')], [sym('base_path'), C('/')]) and any(is_call(x, 'rndstr') for x in fp)
        ctx.ob('C27.file', ok, r.func, 'file and URL', 'file {} for URL {}'.format(show(f)[:60], show(w)[:60]))
