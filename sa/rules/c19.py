"""Error answers end the flow."""
from ..q import *
from ..terms import C

H = 'oidcrp.rp_handler.RPHandler'
ASK = ('do_request', 'service_request')
RESULT = ('userinfo', 'token', 'id_token', 'session_state')
AFTER = ('do_request', 'service_request', 'get_tokens', 'get_user_info', 'get_access_and_id_token', 'refresh_access_token')
OWN = {'finalize_auth', 'get_access_and_id_token', 'get_tokens', 'get_user_info', 'refresh_access_token', 'userinfo_in_id_token'}


def err_atom(a):
    return a[0] == 'in' and a[1] == C('error')


def check(ctx):
    judged(ctx)
    finalize(ctx)
    finalize_auth(ctx)
    setup(ctx)
    handed(ctx)


def not_error(r, facts, t):
    return known_in(r, facts, 'error', base_of(strip(t))) is False


def judged(ctx):
    ctx.rule('C19.judged', 'whoever sends a request goes on only when the answer is not an error', 6)
    ctx.rule('C19.raise', 'an error answer is an exception', 6)
    for name in owners(ctx, *ASK):
        f = ctx.prog.func(name)
        if f.cls is not None and ctx.prog.is_subclass(f.cls, 'oidcrp.oauth2.Client'):
            continue        # these hand the answer to their caller
        r = ctx.run(name, keep=err_atom)
        for o in r.returns if r else ():
            for _, e, _ in calls(o, *ASK):
                ctx.ob('C19.judged', not_error(r, o.facts, e.res), r.func, service_of(e),
                       'goes on although the answer may be an error', e.line)
        for o in r.raises if r else ():
            for _, e, _ in calls(o, *ASK):
                if known_in(r, o.facts, 'error', base_of(strip(e.res))):
                    ctx.ob('C19.raise', True, r.func, service_of(e))
    for name in ('get_tokens', 'refresh_access_token', 'get_user_info'):
        for n in impls(ctx, H, name):
            r = ctx.run(n, keep=err_atom)
            for o in r.returns if r else ():
                c = calls(o, *ASK)
                ok = len(c) == 1 and base_of(r.value(o)) == strip(c[0][1].res)
                ctx.ob('C19.judged', ok, r.func, 'return', 'returns ' + shows(r.value(o)))
            bad = [o for o in r.raises for _, e, _ in calls(o, *ASK) if known_in(r, o.facts, 'error', strip(e.res))] if r else [1]
            ctx.ob('C19.raise', bool(bad), r.func if r else n, name, 'an error answer is no exception')


def service_of(e):
    s = arg(e, 'request_type', 0) or (e.args[0] if e.args else None)
    return shows(s)


def finalize(ctx):
    ctx.rule('C19.error', 'an error answer to the authorization request is reported with its state, and nothing else happens')
    ctx.rule('C19.result', 'results are reported only when no answer was an error')
    for name in impls(ctx, H, 'finalize'):
        r = ctx.run(name, opaque={'finalize_auth', 'get_tokens', 'get_user_info'},
                    transparent={'get_access_and_id_token'},
                    keep=lambda a: a[0] == 'in' and (err_atom(a)))
        for o in r.outs if r else ():
            auth = [(i, strip(e.res)) for i, e, _ in calls(o, 'finalize_auth')]
            if not ctx.ob('C19.error', len(auth) == 1 or o.kind == 'raise', r.func, 'finalize_auth',
                          'the response is judged {} times'.format(len(auth))) or not auth:
                continue
            i, a = auth[0]
            bad = known_in(r, o.facts, 'error', a)
            later = [(e, f) for j, (e, f) in enumerate(o.trace) if j > i and (
                e.name in AFTER or e.name in STORING)]
            for e, f in later:
                ctx.ob('C19.error', known_in(r, f, 'error', a) is False, r.func, e.name,
                       '{} although the response may be an error'.format(e.name), e.line)
            if o.kind != 'return':
                continue
            v = r.value(o)
            if bad:
                ks, other = keys_of(v)
                ctx.ob('C19.error', not other and ks == {'state', 'error'}, r.func, 'error', 'reports ' + shows(v))
                for k in ('state', 'error'):
                    for _, x in r.get(o, v, k):
                        ctx.ob('C19.error', x == it(a, k), r.func, k, '{} reported is {}'.format(k, shows(x)))
                continue
            ctx.ob('C19.error', bad is False, r.func, 'unjudged', 'the response is not judged')
            ks, other = keys_of(v)
            failed = [strip(e.res) for _, e, _ in calls(o, 'get_tokens', 'get_user_info', *ASK)
                      if known_in(r, o.facts, 'error', strip(e.res))]
            if failed:
                ctx.ob('C19.result', not ks & set(RESULT) and 'error' in ks, r.func, 'result',
                       'reports {} though {} failed'.format(shows(v), shows(failed[0])))
            elif ks & set(RESULT):
                ctx.ob('C19.result', 'error' not in ks, r.func, 'result', 'reports both ' + shows(v))
    for name in impls(ctx, H, 'get_access_and_id_token'):
        r = ctx.run(name, keep=err_atom)
        for o in r.returns if r else ():
            for _, e, _ in calls(o, 'get_tokens'):
                p = known_in(r, o.facts, 'error', strip(e.res))
                ks, _ = keys_of(r.value(o))
                if p:
                    ctx.ob('C19.result', not ks, r.func, 'get_tokens', 'tokens are taken from an error')


def finalize_auth(ctx):
    ctx.rule('C19.stored', 'an error answer to the authorization request is returned and not stored')
    for name in impls(ctx, H, 'finalize_auth'):
        r = ctx.run(name, keep=err_atom)
        for o in r.outs if r else ():
            p = [strip(e.res) for _, e, _ in calls(o, 'parse_response')]
            for _, e, f in effects(o):
                if e.name in STORING:
                    ctx.ob('C19.stored', p and known_in(r, f, 'error', p[-1]) is False, r.func, e.name,
                           'may be an error that is stored', e.line)
            if o.kind == 'return':
                ctx.ob('C19.stored', p and base_of(r.value(o)) == p[-1], r.func, 'return', 'returns ' + shows(r.value(o)))


def setup(ctx):
    ctx.rule('C19.setup', 'a client is set up only when nothing went wrong on the way')
    inner = {'dynamic_provider_info_discovery', 'load_registration_response', 'do_webfinger', 'do_provider_info',
             'do_client_registration'}
    for m in ('do_provider_info', 'do_client_registration', 'do_webfinger'):
        for name in impls(ctx, H, m):
            r = ctx.run(name, transparent=inner, opaque={'init_client'}, keep=err_atom)
            for o in r.returns if r else ():
                for _, e, _ in calls(o, *ASK):
                    ctx.ob('C19.setup', not_error(r, o.facts, e.res), r.func, service_of(e),
                           'goes on although the answer may be an error', e.line)
    # nobody swallows the exception
    names = inner | OWN | {'client_setup', 'init_authorization', 'init_client'} | set(ASK)
    for name in owners(ctx, *names):
        r = ctx.run(name, opaque=names, throws=names, watch=lambda e: e.kind in ('call', 'threw'))
        for o in r.returns if r else ():
            for _, e, _ in events(o, 'call', 'threw'):
                if e.name in names:
                    ctx.ob('C19.setup', e.kind != 'threw', r.func, e.name, 'a failure of {} is ignored'.format(e.name))


def handed(ctx):
    ctx.rule('C19.handed', 'an answer that is an error is still one when it is handed over', 1)
    for name in impls(ctx, 'oidcrp.oauth2.Client', 'parse_request_response') + impls(ctx, 'oidcrp.service.Service', 'parse_response'):
        r = ctx.run(name, keep=err_atom)
        for o in r.returns if r else ():
            v = r.value(o)
            if v[0] != 'obj':
                ctx.ob('C19.handed', True, r.func, 'error')
                continue
            gone = [op for op in all_ops(v) if op[0] == 'clear' or op[:2] == ('del', C('error'))]
            ctx.ob('C19.handed', not gone, r.func, 'error', 'the error is taken out of the answer')
