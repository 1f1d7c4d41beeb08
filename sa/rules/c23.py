"""Callback and request URIs belong to one provider."""
from ..q import *
from ..terms import C, show
from .c21 import fed, plain

REG = 'oidcrp.oidc.registration.'
DIGESTS = {'hexdigest'}


def check(ctx):
    ctx.rule('C23.below', 'a generated URI is the base URL, a path and the digest', 7)
    ctx.rule('C23.paths', 'every kind of URI has a path of its own', 6)
    ctx.rule('C23.digest', 'the digest covers the issuer and the seed or the base URL', 4)
    ctx.rule('C23.known', 'the issuer is recorded under the digest', 3)
    ctx.rule('C23.args', "the callbacks are made from the client's own issuer, seed and base URL", 3)
    created(ctx)
    added(ctx)
    request_uris(ctx)


def covers(x, t):
    """a text that contains the whole of another one"""
    x = plain(x)
    if x == t:
        return True
    if x[0] == 'cat':
        return any(covers(p, t) for p in x[1])
    if x[0] == 'op' and x[1] == 'Add':
        return any(covers(p, t) for p in x[2])
    return False


def located(ctx, r, o, name, uri, base):
    """-> the constant path of a URI"""
    ps = [plain(x) for x in parts(plain(uri))]
    dig = ps[-1]
    path = ''.join(p[2] if is_const(p) else '{}' for p in ps[1:-1])
    ok = ctx.ob('C23.below', ps[0] == base and len(ps) > 2, r.func, name, '{} is {}'.format(name, show(uri)))
    ok &= ctx.ob('C23.below', is_call(dig, *DIGESTS), r.func, name + ' digest', '{} ends with {}'.format(name, show(dig)))
    ctx.ob('C23.below', path.endswith('/') and (path.startswith('/') or not is_const(ps[1])), r.func, name + ' path',
           'the path of {} is {}'.format(name, path))
    return (path, dig) if ok else None


def created(ctx):
    r = ctx.run(REG + 'create_callbacks')
    if r is None:
        return
    n = 0
    for o in r.returns:
        v = r.value(o)
        seen = {}
        hexes, digs = [], []
        for op in all_ops(v):
            if op[0] != 'set' or not is_const(op[1]):
                ctx.ob('C23.below', False, r.func, 'callbacks', 'something else is put in: ' + repr(op)[:120])
                continue
            k = op[1][2]
            if k == '__hex':
                hexes.append(plain(op[2]))
                continue
            for u in elements(op[2]) if strip(op[2])[0] in ('obj', 'tup') and elements(op[2]) else [op[2]]:
                n += 1
                got = located(ctx, r, o, k, u, sym('base_url'))
                if got is None:
                    continue
                ctx.ob('C23.paths', seen.get(got[0], k) == k, r.func, k, '{} and {} share a path'.format(k, seen.get(got[0])))
                seen[got[0]] = k
                digs.append(got[1])
        ctx.ob('C23.known', len(set(hexes)) == 1 and all(d == hexes[0] for d in digs), r.func, '__hex',
               'the digest reported is not the one used')
        for d in set(digs):
            have = fed(o, r.eng, d)
            for t in ('issuer', 'hash_seed'):
                ctx.ob('C23.digest', any(covers(x, sym(t)) for x in have), r.func, t, 'the digest does not cover the {}: {}'.format(
                    t, [show(x) for x in have]))
    ctx.ob('C23.below', n >= 7, r.func, 'callbacks', 'only {} kinds of callbacks'.format(n))


def added(ctx):
    cx = sym('context')
    r = ctx.run(REG + 'add_callbacks', opaque={'create_callbacks'}, types={cx: 'oidcrp.service_context.ServiceContext'})
    if r is None:
        return
    for o in r.returns:
        made = [e for _, e, _ in calls(o, 'create_callbacks')]
        if not ctx.ob('C23.args', len(made) == 1, r.func, 'create_callbacks', 'callbacks are made {} times'.format(len(made))):
            continue
        e = made[0]
        for n, a in (('issuer', 'issuer'), ('hash_seed', 'hash_seed'), ('base_url', 'base_url')):
            v = arg(e, n, None)
            ctx.ob('C23.args', v is not None and plain(v) == at(cx, a), r.func, n, '{} is {}'.format(n, shows(v)), e.line)
        puts = [x for _, x, _ in events(o, 'setitem') if strip(x.recv) == at(cx, 'hash2issuer')]
        ok = len(puts) == 1
        if ok:
            k, v = [strip(r.eng.freeze(o.state, y)) for y in puts[0].args]
            ok = k[0] == 'item' and k[2] == C('__hex') and is_call(base_of(k[1]), 'create_callbacks') and v == at(cx, 'issuer')
        ctx.ob('C23.known', ok, r.func, 'hash2issuer', 'the issuer is not recorded under the digest')
        sets = [x for _, x, _ in events(o, 'setattr') if x.recv == cx and x.args[0] == C('callback')]
        ctx.ob('C23.args', len(sets) == 1 and is_call(base_of(strip(r.eng.freeze(o.state, sets[0].args[1]))), 'create_callbacks'),
               r.func, 'callback', 'the callbacks recorded are not those created')


def request_uris(ctx):
    r = ctx.run('oidcrp.service_context.ServiceContext.generate_request_uris')
    if r is None:
        return
    base = at(SELF, 'base_url')
    iss = (at(SELF, 'issuer'), it(at(SELF, 'provider_info'), 'issuer'))
    for o in r.returns:
        uris = elements(r.value(o))
        if not ctx.ob('C23.below', bool(uris), r.func, 'return', 'no URI is generated'):
            continue
        for u in uris:
            got = located(ctx, r, o, 'request URI', u, base)
            if got is None:
                continue
            ctx.ob('C23.paths', mentions(plain(u), sym('path')), r.func, 'path', 'the path asked for is not used')
            have = fed(o, r.eng, got[1])
            ctx.ob('C23.digest', any(covers(x, i) for x in have for i in iss), r.func, 'issuer', 'the digest does not cover the issuer')
            ctx.ob('C23.digest', any(covers(x, base) for x in have), r.func, 'base_url', 'the digest does not cover the base URL')
