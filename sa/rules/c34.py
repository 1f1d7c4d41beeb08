"""Only claims attributed to a source are taken from that source.

Both functions are interpreted for a sample of user data with three sources; what a source delivers is unknown.
"""
from ..q import *
from ..terms import C, contains, is_const, show

RP = 'oidcrp.oidc.RP'
UI = 'oidcrp.oidc.userinfo.UserInfo'
CALLBACK = sym('the callback')
OWN = {'sub': 'the sub', 'name': 'the name', 'email': 'the address', 'rc': 'a claim named like a source'}
# names of sources resemble each other, and claims are also attributed to sources that do not exist
S1, S2, S3, S4 = 'src', 'src2', 'rc', 'rc4'
NAMES = {'a': S1, 'b': S2, 'c': S1, 'd': S3, 'e': S4, 'f': 'src9', 'g': 'SRC', 'h': 's', 'i': 'rc9', 'j': 'RC', 'sub': S1}
SOURCES = {S1: {'endpoint': 'https://one', 'access_token': 'token one'}, S2: {'endpoint': 'https://two'}, S3: {'JWT': 'jwt three'},
           S4: {'JWT': 'jwt four'}}
SENDING = ('send', 'request', 'get', 'post', 'http', 'urlopen')
PROBLEMS = (100, 201, 204, 301, 302, 303, 307, 400, 401, 403, 404, 500, 503)


def check(ctx):
    ctx.rule('C34.attributed', 'a claim is merged from the source it is attributed to', 6)
    ctx.rule('C34.only', 'nothing else is taken from a source', 10)
    ctx.rule('C34.keys', "aggregated claims are unpacked with the client's keys", 2)
    ctx.rule('C34.token', 'a source is given the token meant for it, or none', 6)
    ctx.rule('C34.asked', 'a source is asked at its own endpoint, once', 6)
    ctx.rule('C34.success', 'only the answer of a success is used and anything else is an exception', 6)
    for m in impls(ctx, RP, 'fetch_distributed_claims'):
        for cb in (CALLBACK, C(None)):
            distributed(ctx, m, cb)
    for m in impls(ctx, UI, 'post_parse_response'):
        aggregated(ctx, m)


def userinfo(names=NAMES, sources=SOURCES):
    return dct(dict(OWN, _claim_names=dct(names), _claim_sources=dct({k: dct(v) for k, v in sources.items()})))


def merged(ctx, r, o, func, res, want):
    """want: {claim: predicate on where its value comes from}; -> the claims merged"""
    done = set()
    keys, other = keys_of(strip(res))
    ctx.ob('C34.only', not other, func, 'claims', 'takes all that a source delivers')
    extra = keys - set(OWN) - set(NAMES) - {'_claim_names', '_claim_sources'}
    ctx.ob('C34.only', not extra, func, 'claims', 'takes {} which are not attributed to any source'.format(sorted(extra)))
    for k in OWN:
        for _, v in r.get(o, res, k):
            ctx.ob('C34.only', v is not None and strip(v) == C(OWN[k]), func, k, '{} is {}'.format(k, shows(v)[:80]))
    for k in NAMES:
        if k in OWN:
            continue
        for _, v in r.get(o, res, k):
            if v is None:
                continue
            if k not in want:
                ctx.ob('C34.only', False, func, k, 'the claim {} is merged: {}'.format(k, shows(v)[:80]))
                continue
            done.add(k)
            v = strip(v)
            ok = v[0] == 'item' and strip(v[2]) == C(k) and want[k](v[1])
            ctx.ob('C34.attributed', ok, func, k, 'the claim {} of the source {} is {}'.format(k, NAMES[k], shows(v)[:100]))
    return done


def distributed(ctx, m, cb):
    service = sym('the userinfo service')
    given = {('attr', SELF, '_service'): dct({'userinfo': service})}
    r = ctx.run(m, args={'userinfo': userinfo(), 'callback': cb}, given=given, transparent={'construct', 'find_token'},
                keep=lambda a: involves(a[1], *SENDING) if len(a) > 1 and isinstance(a[1], tuple) else False)
    done = set()
    for o in r.outs if r else ():
        sent = [(i, e, f) for i, e, f in events(o, 'call') if e.name in SENDING and any(is_const(x) and str(x[2]).startswith('http') for x in list(e.args) + [
            v for _, v in e.kw])]
        asked = {}
        for i, e, f in sent:
            u = strip(arg(e, 'url', 0, C('')))
            name = [k for k, v in SOURCES.items() if is_const(u) and v.get('endpoint') == u[2]]
            if not ctx.ob('C34.asked', len(name) == 1 and name[0] not in asked, r.func, 'endpoint', 'a request to {} after {}'.format(shows(u), sorted(asked)), e.line):
                continue
            asked[name[0]] = e
            token(ctx, r, o, e, f, name[0], cb)
        if o.kind == 'raise':
            continue
        ctx.ob('C34.asked', set(asked) == {S1, S2}, r.func, 'sources', 'asks {}'.format(sorted(asked)))
        for k, e in asked.items():
            status = at(e.res, 'status_code')
            bad = [x for x in PROBLEMS if admits(o.facts, status, x)]
            # every success is a success
            ctx.ob('C34.success', not [x for x in bad if x // 100 != 2], r.func, 'status_code', 'goes on after an answer with status {}'.format(bad), e.line)
        done |= merged(ctx, r, o, r.func, r.value(o), {c: lambda t, e=asked[s]: contains(t, lambda x: x == strip(e.res)) for c, s in NAMES.items() if s in asked})
    all_of(ctx, m, done, (S1, S2))


def token(ctx, r, o, e, f, name, cb):
    """the token that a request carries"""
    headers = kwval(e, 'headers', r.eng, o.state)
    for s, h in headers:
        got = [v for _, v in r.get(s, h, 'Authorization')] if h is not None else [None]
        for v in got:
            own = SOURCES[name].get('access_token')
            if own is not None:
                ok = v is not None and strip(v) == C('Bearer ' + own) or v is not None and strip(v) == ('cat', (C('Bearer '), C(own)))
            elif v is None:
                ok = True
            else:
                # what the caller's function gave for this very endpoint
                v = strip(v)
                ok = cb == CALLBACK and v[0] == 'cat' and len(v[1]) == 2 and v[1][0] == C('Bearer ') and \
                    is_call(v[1][1]) and v[1][1][1] == CALLBACK and [strip(x) for x in v[1][1][2]] == [C(SOURCES[name]['endpoint'])]
            ctx.ob('C34.token', ok, r.func, name, 'the token for {} is {}'.format(SOURCES[name], shows(v)[:80]), e.line)
            if own is None and cb == CALLBACK and truthy(f, r.eng, cb) is not False:
                ctx.ob('C34.token', v is not None, r.func, name, "the caller's token for {} is not sent".format(SOURCES[name]), e.line)
    for n, v in list(e.kw) + [(str(i), x) for i, x in enumerate(e.args)]:
        if n not in ('headers', '**', '0', '1', 'url', 'method'):
            ctx.ob('C34.token', not contains(strip(v), lambda t: t[0] == 'cat' or is_const(t) and 'token' in str(t[2])), r.func, n,
                   'something else is sent: ' + shows(v)[:80], e.line)


def aggregated(ctx, m):
    state = sym('the state')
    r = ctx.run(m, args={'response': userinfo(dict(NAMES, sub=S3)), 'kwargs': dct({'state': state})}, given={('attr', SELF, 'post_parse_process'): lst()},
                keep=lambda a: False)
    done = set()
    for o in r.outs if r else ():
        opened = {}
        for i, e, f in calls(o, 'from_jwt', 'verify_compact', 'unpack', 'jwt'):
            jwt = [k for k, v in SOURCES.items() if 'JWT' in v and contains(strip(arg(e, 'txt', 0, C(0))), lambda x: x == C(v['JWT']) or x == C(v['JWT'].encode()))]
            if not jwt:
                continue
            opened[jwt[0]] = e
            jar = [v for _, v in kwval(e, 'keyjar', r.eng, o.state)]
            ctx.ob('C34.keys', jar == [at(CTX, 'keyjar')], r.func, 'keyjar', 'a token of a source is unpacked with the keys ' + shows(jar[0])[:60], e.line)
            flags = [n for n, v in e.kw if n in ('verify', 'allow_none') and strip(v) != C(n == 'verify')]
            ctx.ob('C34.keys', not flags, r.func, 'verify', 'a token of a source is unpacked with {}'.format(flags), e.line)
        for i, e, f in events(o, 'call'):
            if e.name in SENDING and not isinstance(e.recv, type(None)) and any(
                    is_const(strip(x)) and str(strip(x)[2]).startswith('http') for x in list(e.args) + [v for _, v in e.kw]):
                ctx.ob('C34.token', False, r.func, e.name, 'a source is asked while the response is parsed', e.line)
        if o.kind == 'raise':
            continue
        want = {}
        for c, s in NAMES.items():
            if s in opened:
                want[c] = lambda t, e=opened[s]: of(t, e)
        done |= merged(ctx, r, o, r.func, r.value(o), want)
    all_of(ctx, m, done, (S3, S4))


def all_of(ctx, m, done, names):
    for k, s in NAMES.items():
        if s in names and k not in OWN:
            ctx.ob('C34.attributed', k in done, m, k, 'the claim {} is never merged'.format(k))


def of(t, e):
    """the term is what an unpacked token contains"""
    if contains(t, lambda x: x == strip(e.res)):
        return True
    return e.recv is not None and contains(t, lambda x: x == strip(e.recv))
