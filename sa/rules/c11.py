"""PKCE binds each code to a secret verifier of its own session."""
from ..q import *
from ..terms import C, show

M = 'oidcrp.oauth2.add_on.pkce.'
SRV = sym('service')
SCTX = context_of(('owner', SRV))
RA = sym('request_args')
HASH = {'sha256': 'S256', 'sha384': 'S384', 'sha512': 'S512'}


def check(ctx):
    challenge(ctx)
    length(ctx)
    verifier(ctx)
    support(ctx)


def unwrap(t):
    """(names of what was applied, outermost first, innermost value)"""
    names = []
    t = strip(t)
    while is_call(t):
        n = callname(t)
        inner = None
        if n in ('decode', 'encode', 'digest', 'rstrip', 'hexdigest', 'strip', 'replace'):
            inner = recv(t)
            if n in ('rstrip', 'replace', 'strip'):
                n += repr(t[2])
        elif n in ('b64e', 'urlsafe_b64encode', 'b64encode', 'as_unicode', 'as_bytes', 'str', 'bytes') or n in HASH:
            inner = callarg(t, 'b', 0) or callarg(t, 's', 0) or (t[2][0] if t[2] else None)
        elif n == 'new' and len(t[2]) == 2:
            n = {'c': lambda x: x[2]}.get(t[2][0][0], repr)(t[2][0])
            inner = t[2][1]
        if inner is None:
            return names, t
        names.append(n)
        t = strip(inner)
    return names, t


def challenge(ctx):
    ctx.rule('C11.challenge', 'the request carries the base64url coded hash of the verifier recorded, and the name of the hash '
             'method configured')
    ctx.rule('C11.stored', 'the verifier is recorded once, under the state of the request')
    ctx.rule('C11.secret', 'the verifier itself is not in the authorization request')
    ctx.rule('C11.unsupported', 'an unsupported method is an exception')
    conf = it(it(at(SCTX, 'add_on'), 'pkce'), 'code_challenge_method')
    r = ctx.run(M + 'add_code_challenge', keep=lambda a: mentions(a, C('code_challenge_method')))
    if r is None:
        return
    for o in r.returns:
        v = r.value(o)
        if v[0] == 'tup':
            v = v[1][0]
        st = [e for _, e, _ in calls(o, 'store_item')]
        ok = len(st) == 1 and st[0].recv == at(SCTX, 'state') and arg(st[0], 'item_type', 1) == C('pkce') and \
            strip(arg(st[0], 'key', 2)) == it(RA, 'state')
        if not ctx.ob('C11.stored', ok, r.func, 'store_item', 'the verifier is not recorded under the state of the request'):
            continue
        item = arg(st[0], 'item', 0)
        for s, ver in r.get(o, item, 'code_verifier'):
            ok = ver is not None and is_call(ver, 'unreserved', 'rndstr', 'token_urlsafe')
            if not ctx.ob('C11.stored', ok, r.func, 'code_verifier', 'verifier recorded is ' + shows(ver)):
                continue
            for s2, ch in r.get(o, v, 'code_challenge'):
                names, inner = unwrap(ch) if ch is not None else ([], None)
                h = [n for n in names if n in HASH]
                ok = inner == ver and len(h) == 1 and 'digest' in names and \
                    ('b64e' in names or 'urlsafe_b64encode' in names and any(n.startswith('rstrip') for n in names))
                ctx.ob('C11.challenge', ok, r.func, 'code_challenge', 'challenge is ' + shows(ch))
                for s3, m in r.get(o, v, 'code_challenge_method'):
                    name = m[2] if m is not None and is_const(m) else \
                        (s3.facts.get(('=', m), (0, 0, None))[2] if m is not None else None)
                    ctx.ob('C11.challenge', bool(h) and name == HASH[h[0]], r.func, 'code_challenge_method',
                           'method named is {} and hash {}'.format(shows(m), h))
                    ok = m == conf or known_in(r, s3.facts, 'code_challenge_method', conf[1]) is False or \
                        is_const(m) and known_eq(s3.facts, conf, m, r.eng)
                    ctx.ob('C11.challenge', ok, r.func, 'configured', 'the method configured is not used: ' + shows(m))
            ctx.ob('C11.secret', not any(strip(op[2]) == ver for op in all_ops(v) if op[0] == 'set'), r.func, 'request',
                   'the verifier is in the request')
        ctx.ob('C11.secret', base_of(v) == RA, r.func, 'result', 'returns ' + show(v))
    bad = [o for o in r.raises if all(o.facts.get(r.eng.norm_atom(('eq', conf, C(m)))) is False for m in HASH.values())]
    ctx.ob('C11.unsupported', bool(bad), r.func, 'raise', 'no exception for unsupported methods')


def length(ctx):
    """the verifier is as long as is configured"""
    ctx.rule('C11.length', 'the verifier has the length that is configured', 3)
    for n in (43, 64, 100, 128):
        conf = dct({'code_challenge_length': C(n), 'code_challenge_method': 'S256'})
        r = ctx.run(M + 'add_code_challenge', keep=lambda a: False, given={('attr', SCTX, 'add_on'): dct({'pkce': conf})}, opaque={'unreserved', 'rndstr', 'token_urlsafe'})
        for o in r.returns if r else ():
            for _, e, _ in calls(o, 'store_item'):
                for _, ver in r.get(o, arg(e, 'item', 0), 'code_verifier'):
                    ver = strip(ver) if ver is not None else C(None)
                    if is_call(ver, 'unreserved', 'rndstr'):
                        ctx.ob('C11.length', C(n) in list(ver[2]) + [v for _, v in ver[3]], r.func, 'length', 'the verifier is {} where {} is configured'.format(show(ver), n), e.line)


def verifier(ctx):
    ctx.rule('C11.verifier', 'the token request carries the verifier recorded for its session')
    r = ctx.run(M + 'add_code_verifier', keep=lambda a: mentions(('x',) + a, it(RA, 'state')) or a[:2] == ('in', C('state')))
    for o in r.returns if r else ():
        v = r.value(o)
        ctx.ob('C11.verifier', base_of(v) == RA, r.func, 'result', 'returns ' + show(v))
        for s, n in r.get(o, v, 'code_verifier'):
            ss = sess(n[1]) if n is not None and n[0] == 'item' and n[2] == C('code_verifier') else None
            ok = bool(ss) and ss[0] == at(SCTX, 'state') and ss[2] == 'pkce' and \
                strip(ss[1]) in (it(RA, 'state'), it(KW, 'state'), C(None))
            ctx.ob('C11.verifier', ok, r.func, 'code_verifier', 'verifier is ' + shows(n))
            if ok and strip(ss[1]) != it(RA, 'state'):
                known = [known_in(r, s.facts, 'state', RA), truthy(s.facts, r.eng, it(RA, 'state')),
                         False if s.facts.get(r.eng.norm_atom(('none', it(RA, 'state')))) else None]
                ctx.ob('C11.verifier', False in known, r.func, 'state', 'the state of the request is not used')
    for mine, kw in (({'state': 'mine'}, {}), ({}, {'state': 'other'}), ({'state': 'mine'}, {'state': 'other'}), ({'code': 'c'}, {'state': 'other'})):
        r = ctx.run(M + 'add_code_verifier', keep=lambda a: False, args={'request_args': dct(mine), 'kwargs': dct(kw)})
        want = C(mine.get('state') or kw['state'])
        for o in r.returns if r else ():
            got = [strip(arg(e, 'key', 2)) for _, e, _ in calls(o, 'get_item')]
            ctx.ob('C11.verifier', bool(got) and set(got) == {want}, r.func, 'session', 'the verifier is that of {} for {} with {}'.format(
                [show(x) for x in got], mine, kw))
    r = ctx.run(M + 'put_state_in_post_args')
    for o in r.returns if r else ():
        v = r.value(o)
        ok = v[0] == 'tup' and len(v[1]) == 2 and base_of(v[1][0]) == RA
        ctx.ob('C11.verifier', ok, r.func, 'result', 'returns ' + show(v))
        for s, n in r.get(o, v[1][1], 'state') if ok else ():
            ok = n in (it(RA, 'state'), it(KW, 'state')) or n is not None and is_call(n, 'get_state_parameter')
            ctx.ob('C11.verifier', ok, r.func, 'state', 'state is ' + shows(n))


def support(ctx):
    ctx.rule('C11.hooks', 'switching PKCE on puts the hooks in place and records the settings given')
    r = ctx.run(M + 'add_support', keep=lambda a: a[0] == 'in')
    found = False
    for o in r.returns if r else ():
        both = all(known_in(r, o.facts, n, SRV) is not False for n in ('authorization', 'accesstoken'))
        if not both:
            continue
        found = True
        app = [(strip(e.recv), strip(a)) for _, e, _ in events(o, 'append') for a in e.args]
        for srv, attr, fn in (('authorization', 'pre_construct', 'add_code_challenge'),
                              ('accesstoken', 'pre_construct', 'put_state_in_post_args'),
                              ('accesstoken', 'post_construct', 'add_code_verifier')):
            want = at(it(SRV, srv), attr)
            ok = any(base_of(a) == want and b[0] == 'func' and b[1] == M + fn for a, b in app)
            ctx.ob('C11.hooks', ok, r.func, '{} {}'.format(srv, fn), 'hook not in place')
        conf = [e for _, e, _ in events(o, 'setitem') if e.args[0] == C('pkce')]
        ok = len(conf) == 1
        for name in ('code_challenge_length', 'code_challenge_method'):
            for s, n in r.get(o, strip(conf[0].args[1]), name) if ok else ():
                ctx.ob('C11.hooks', n == sym(name), r.func, name, 'set to ' + shows(n))
        ctx.ob('C11.hooks', ok, r.func, 'add_on', 'settings not recorded')
    ctx.ob('C11.hooks', found, 'oidcrp.oauth2.add_on.pkce.add_support', 'services', 'PKCE is not switched on')
