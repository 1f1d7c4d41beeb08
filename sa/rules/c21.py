"""Cookies: only authentic content is returned."""
import ast

from ..q import *
from ..terms import C

M = 'oidcrp.cookie.'
RAISES = {'b64decode': ('binascii.Error',), 'decrypt': ('cryptography.exceptions.InvalidTag', 'builtins.ValueError'),
          'SimpleCookie': ('http.cookies.CookieError',)}
FAILED = M + 'InvalidCookieSign'
MACS = {'cookie_signature'}
COMPARE = {'safe_str_cmp', 'compare_digest'}
CONV = {'as_unicode', 'as_bytes', 'str', 'bytes'}


def plain(t):
    """a text without its conversions between str and bytes"""
    t = strip(t)
    while t[0] == 'call':
        n = callname(t)
        if n in CONV:
            nxt = [v for _, v in t[3]] if t[3] and not t[2] else list(t[2])
            if not nxt:
                return t
            t = strip(nxt[0])
        elif n in ('encode', 'decode') and t[1][0] == 'meth':
            t = strip(recv(t))
        else:
            return t
    return t


def fed(o, eng, t):
    """everything a digest is computed over, in order"""
    res = []
    for i, e, f in events(o, 'call'):
        if e.name == 'update' and e.recv is not None and contains(t, lambda x: x == strip(e.recv)):
            res.append(plain(eng.freeze(o.state, e.args[0])))
    for x in walk(t):
        if isinstance(x, tuple) and x[:1] == ('call',) and callname(x) in ('new', 'sha256', 'sha512', 'sha384'):
            res = [plain(a) for a in x[2] if a[0] != 'c'] + res
    return [x for x in res]


def check(ctx):
    ctx.rule('C21.accept', 'content is only returned after its signature or its encryption was verified', 2)
    ctx.rule('C21.covers', 'what is returned is what the signature or encryption covers', 2)
    ctx.rule('C21.failed', 'a bad cookie yields nothing or InvalidCookieSign')
    ctx.rule('C21.mac', 'the signature is an HMAC under the seed over every part')
    ctx.rule('C21.compare', 'signatures are compared completely, in constant time')
    ctx.rule('C21.create', 'what is created is what will be verified', 2)
    ctx.rule('C21.key', 'the encryption key depends on both secrets')
    ctx.rule('C21.iv', 'a new initialisation vector is drawn for every cookie')
    ctx.rule('C21.flags', 'cookies are secure and http-only by default', 4)
    ctx.rule('C21.dealer', "the cookie dealer uses its server's secrets", 4)
    ctx.rule('C21.stamp', 'the time stamp within the content is the one of the cookie')
    ctx.rule('C21.value', 'a genuine cookie yields the value and the kind it was created with', 4)
    parse(ctx)
    lifetime(ctx)
    value(ctx)
    mac(ctx)
    compare(ctx)
    make(ctx)
    dealer(ctx)


def keyfed(ctx, r, o, f, aes, what, line):
    have = fed(o, r.eng, strip(r.eng.freeze(o.state, aes)))
    for n in ('enc_key', 'seed'):
        t = sym(n)
        if any(plain(a[1]) == t and v is False for a, v in f.items() if a[0] == 'T'):
            continue
        ctx.ob('C21.key', any(contains(x, lambda y: y == t) for x in have), r.func, n,
               'the key for {} does not depend on {}'.format(what, n), line)
    return have


def parse(ctx):
    kaka, name = sym('kaka'), sym('name')
    r = ctx.run(M + 'parse_cookie', opaque=MACS | COMPARE, may_raise=RAISES, throws={'decrypt'},
                transparent={'verify_cookie_signature'},
                keep=lambda a: is_check(a) or (a[0] == 'T' and plain(a[1]) in (sym('enc_key'), sym('seed'))))
    if r is None:
        return
    for o in r.outs:
        if o.kind == 'raise':
            ctx.ob('C21.failed', o.value[1] == FAILED, r.func, 'raise ' + o.value[1].split('.')[-1],
                   'raises {} for a bad cookie'.format(o.value[1]))
            continue
        v = r.value(o)
        if v == C(None):
            continue
        if v[0] != 'tup' or len(v[1]) != 2:
            ctx.ob('C21.covers', False, r.func, 'return', 'returns ' + shows(v))
            continue
        content, stamp = [plain(x) for x in v[1]]
        macs = [a[1] for a, x in o.facts.items() if is_check(a) and x is True]
        if is_call(content, 'decrypt'):
            aes = recv(content)
            ctx.ob('C21.accept', not events(o, 'threw') or not any(e.name == 'decrypt' for _, e, _ in events(o, 'threw')),
                   r.func, 'decrypt', 'a failed decryption is ignored')
            aad = callarg(content, 'associated_data', 2, C(None))
            ctx.ob('C21.covers', plain(aad) == stamp and from_cookie(stamp, kaka, name), r.func, 'associated data',
                   'the encryption does not cover the time stamp ' + shows(stamp))
            ctx.ob('C21.covers', from_cookie(callarg(content, 'data', 1, C(None)), kaka, name), r.func, 'ciphertext',
                   'decrypts ' + shows(content))
            ok = is_call(strip(aes)) and callname(strip(aes)) in AEADS
            ctx.ob('C21.accept', ok, r.func, 'decrypt', 'not an authenticated cipher: ' + shows(aes))
            keyfed(ctx, r, o, o.facts, aes, 'decryption', 0)
            continue
        good = False
        for c in macs:
            sides = [plain(x) for x in list(c[2]) + [y for _, y in c[3]]]
            for m in sides:
                if not is_call(m, *MACS):
                    continue
                covered = [plain(x) for x in m[2]]
                key = callarg(m, 'key', None, covered[0] if covered else C(None))
                covered = [x for x in covered if not (x == plain(key) and not m[3])]
                other = [x for x in sides if x is not m]
                if covered == [content, stamp] and plain(key) == sym('seed') and \
                        all(from_cookie(x, kaka, name) and x not in covered for x in other):
                    good = True
        ctx.ob('C21.accept', good, r.func, 'signature', 'returns {} without a check of the signature over it, under the seed'.format(
            shows(v)))
        ctx.ob('C21.covers', from_cookie(content, kaka, name) and from_cookie(stamp, kaka, name), r.func, 'content', 'returns ' + shows(v))


AEADS = {'AESGCM', 'AESCCM', 'ChaCha20Poly1305', 'AESOCB3', 'AESSIV', 'AESGCMSIV', 'Fernet'}


def is_check(a):
    return a[0] == 'T' and is_call(a[1], *COMPARE)


def from_cookie(t, kaka, name):
    return contains(t, lambda x: x == kaka) and contains(t, lambda x: x == name)


def skips_empty(t):
    """the parts without the empty ones"""
    return t[0] == 'comp' and all(is_elem(plain(vs[0]), 1) and all(
        (a[0], p) in (('T', True), ('none', False)) and a[1] == vs[0] for a, p in facts) for facts, vs in t[2])


def mac(ctx):
    r = ctx.run(M + 'cookie_signature', keep=lambda a: a[0] in ('T', 'exhausted'), loop_iters=2)
    if r is None:
        return
    for o in r.outs:
        if o.kind != 'return':
            continue
        v = plain(r.value(o))
        ok = is_call(v, 'hexdigest') and is_call(strip(recv(v)), 'new', 'HMAC') and 'hmac' in repr(recv(v))
        if ok:
            h = strip(recv(v))
            ok = plain(callarg(h, 'key', 0, C(None))) == sym('key') and callarg(h, 'digestmod', 2, C(None)) != C(None)
        ctx.ob('C21.mac', ok, r.func, 'return', 'the signature is ' + shows(v))
        if not ok:
            continue
        done = [plain(e.args[0]) for _, e, _ in calls(o, 'update') if strip(e.recv) == h] + \
               [plain(x) for x in (callarg(h, 'msg', 1),) if x]
        n = max([a[2] for a, x in o.facts.items() if a[0] == 'exhausted' and x] or [0])
        for i in range(1, n + 1):
            mine = [x for x in done if is_elem(x, i)]
            empty = any(a[0] == 'T' and is_elem(plain(a[1]), i) and x is False for a, x in o.facts.items())
            ctx.ob('C21.mac', bool(mine) or empty, r.func, 'part', 'a part is not covered by the signature')
        if n == 2:
            us = [plain(e.args[0]) for _, e, _ in calls(o, 'update') if strip(e.recv) == h]
            at_ = [[k for k, x in enumerate(us) if is_elem(x, i)] for i in (1, 2)]
            if all(at_):
                between = us[at_[0][0] + 1:at_[1][0]]
                ctx.ob('C21.mac', bool(between), r.func, 'separator',
                       'nothing keeps the parts apart that the signature covers: characters can be moved from one to the next')
        if not n:
            whole = any(contains(x, lambda y: y == sym('parts')) for x in done)
            none = any(a == ('T', sym('parts')) and x is False or x is True and a[0] == 'exhausted' and a[2] == 0 and skips_empty(a[1])
                       for a, x in o.facts.items())
            ctx.ob('C21.mac', whole or none, r.func, 'part', 'the parts are not covered by the signature')


def is_elem(x, i):
    return x == ('elem', sym('parts'), i) or (i == 1 and x == ('each', sym('parts')))


def complete(t):
    """a whole signature, or an index into all of it"""
    t = plain(t)
    if is_call(t, 'range'):
        return len(t[2]) == 1 and is_call(strip(t[2][0]), 'len') and complete(strip(t[2][0])[2][0])
    return t == sym('sig') or is_call(t, *MACS)


def looked_at(t):
    """numbers of the characters a condition depends on; None stands for a part of a signature"""
    return {x[2] if complete(x[1]) else None for x in walk(t) if isinstance(x, tuple) and len(x) == 3 and x[0] in ('elem', 'idx')}


def compare(ctx):
    r = ctx.run(M + 'verify_cookie_signature', opaque=MACS | {'compare_digest'}, keep=lambda a: True, loop_iters=2)
    if r is None:
        return
    for o in r.outs:
        if o.kind != 'return':
            continue
        v = r.value(o)
        if is_call(v, 'compare_digest') or any(a[0] == 'T' and is_call(a[1], 'compare_digest') for a in o.facts):
            c = v if is_call(v, 'compare_digest') else [a[1] for a in o.facts if a[0] == 'T' and is_call(a[1], 'compare_digest')][0]
            sides = [plain(x) for x in list(c[2]) + [y for _, y in c[3]]]
            ok = len(sides) == 2 and any(is_call(x, *MACS) for x in sides) and sym('sig') in sides
            if v == C(True):
                ok = ok and o.facts.get(('T', c)) is True
            elif v == C(False):
                ok = ok and o.facts.get(('T', c)) is False
            ctx.ob('C21.compare', ok, r.func, 'compare_digest', 'compares ' + ', '.join(shows(x) for x in sides))
            continue
        n = max([a[2] for a, x in o.facts.items() if a[0] == 'exhausted' and x] or [0])
        need = set(range(1, n + 1))
        for a, x in o.facts.items():
            if a[0] in ('in', 'exhausted'):
                continue
            got = set().union(*[looked_at(y) for y in a[1:] if isinstance(y, tuple)])
            ctx.ob('C21.compare', not got or got == need, r.func, 'loop',
                   'the time taken depends on where the signatures differ: decided on ' + shows(a[1]))
            if a[0] in ('eq', 'lt') and not got:
                sides = [y for y in a[1:] if isinstance(y, tuple) and not is_call(strip(y), 'len')]
                ctx.ob('C21.compare', not (any(contains(y, lambda z: z == sym('sig')) for y in sides) and
                                           any(contains(y, lambda z: is_call(z, *MACS)) for y in sides)), r.func, '==',
                       'signatures are compared with an operator that stops at the first difference')
        direct = v[0] == 'op' and sym('sig') in {plain(y) for y in v[2] if isinstance(y, tuple)}
        if v == C(False) and not direct:
            continue
        ctx.ob('C21.compare', v == C(True) and not direct, r.func, 'return', 'yields ' + shows(v))
        lens = [a for a, x in o.facts.items() if a[0] == 'eq' and x is True and all(is_call(y, 'len') for y in a[1:])]
        ctx.ob('C21.compare', bool(lens), r.func, 'length', 'signatures of different length are accepted')
        if n:
            ok = any((a[0] == 'eq' and x is True and C(0) in a and any(whole(y, n) for y in a[1:])) or
                     (a[0] == 'T' and x is False and whole(a[1], n)) for a, x in o.facts.items())
            ctx.ob('C21.compare', ok, r.func, 'difference', 'accepted though not every character was found equal')


def whole(t, n):
    """an OR (or sum) of the exclusive ORs of all pairs of characters"""
    def flat(x):
        if x[0] == 'op' and x[1] in ('BitOr', 'Add'):
            return [z for y in x[2] for z in flat(y)]
        return [x]
    idx = set()
    for x in flat(t):
        if x == C(0):
            continue
        if not (x[0] == 'op' and x[1] == 'BitXor' and len(x[2]) == 2):
            return False
        got = looked_at(x)
        if len(got) != 1 or x[2][0] == x[2][1] or not all(looked_at(y) for y in x[2]):
            return False
        if not (contains(x, lambda z: is_call(z, *MACS)) and contains(x, lambda z: z == sym('sig'))):
            return False
        idx |= got
    return idx == set(range(1, n + 1))


FLAGS = {'secure': 'secure', 'httponly': 'http_only'}


def make(ctx):
    flags = {sym(x) for x in FLAGS.values()}
    f = ctx.prog.func(M + 'make_cookie')
    if f is None:
        return
    a = f.node.args
    dflt = dict(zip([x.arg for x in (a.posonlyargs + a.args)][::-1], a.defaults[::-1]))
    dflt.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    for n in FLAGS.values():
        d = dflt.get(n)
        ctx.ob('C21.flags', isinstance(d, ast.Constant) and bool(d.value), f, n, 'cookies are not {} by default'.format(n), f.node.lineno)
    secrets = {sym('enc_key'), sym('seed')}

    def watch(e):
        return (e.kind == 'call' and e.name in MACS | {'encrypt', 'update', 'urandom', 'token_bytes'}) or e.kind == 'setitem'

    r = ctx.run(M + 'make_cookie', opaque=MACS | {'_expiration'}, watch=watch,
                keep=lambda a: a[0] == 'T' and (plain(a[1]) in flags | secrets | {sym('timestamp')}))
    if r is None:
        return
    for o in r.outs:
        if o.kind != 'return':
            continue
        payload = None
        have = set()
        for _, e, _ in events(o, 'setitem'):
            k = e.args[0]
            if k == sym('name'):
                payload = strip(r.eng.freeze(o.state, e.args[1]))
            if k[0] == 'c' and isinstance(k[2], str) and k[2].lower() in FLAGS:
                val = strip(e.args[1])
                if val == C(True) or val == sym(FLAGS[k[2].lower()]):
                    have.add(k[2].lower())
        for k, p in FLAGS.items():
            if o.facts.get(('T', sym(p))) is not False:
                ctx.ob('C21.flags', k in have, r.func, k, 'the cookie is not marked {}'.format(k))
        if payload is None:
            ctx.ob('C21.create', False, r.func, 'cookie', 'no cookie is set under the name')
            continue
        enc = calls(o, 'encrypt')
        sig = calls(o, *MACS)
        ctx.ob('C21.create', bool(enc) or bool(sig), r.func, 'protection', 'the content is neither signed nor encrypted')
        if o.facts.get(('T', sym('enc_key'))) is True:
            ctx.ob('C21.create', bool(enc), r.func, 'protection', 'the content is not encrypted though there is a key for it')
        for _, e, fs in enc:
            iv, data, aad = [plain(arg(e, n, i, C(None))) for i, n in enumerate(('nonce', 'data', 'associated_data'))]
            fresh = is_call(iv, 'urandom', 'token_bytes') and any(strip(x.res) == iv for _, x, _ in calls(o, 'urandom', 'token_bytes'))
            ctx.ob('C21.iv', fresh and (iv[2] or [C(0)])[0] in [C(n) for n in range(12, 65)], r.func, 'iv', 'the initialisation vector is ' + shows(iv), e.line)
            ctx.ob('C21.create', contains(payload, lambda x: x == iv) , r.func, 'iv', 'the cookie does not carry the initialisation vector')
            ctx.ob('C21.create', data == sym('load'), r.func, 'content', 'encrypts ' + shows(data))
            ctx.ob('C21.create', stamped(aad, o) and contains(payload, lambda x: isinstance(x, tuple) and plain(x) == aad), r.func, 'stamp',
                   'the encryption covers ' + shows(aad))
            ctx.ob('C21.create', contains(payload, lambda x: x == strip(e.res)), r.func, 'cookie', 'the cookie does not carry the encrypted content')
            ctx.ob('C21.create', is_call(strip(e.recv), *AEADS), r.func, 'encrypt', 'not an authenticated cipher: ' + shows(e.recv))
            keyfed(ctx, r, o, o.facts, e.recv, 'encryption', e.line)
        if enc:
            continue
        for _, e, fs in sig:
            args = [plain(x) for x in e.args]
            key = arg(e, 'key', 0, C(None))
            if not any(n == 'key' for n, _ in e.kw):
                args = args[1:]
            ctx.ob('C21.create', plain(key) == sym('seed'), r.func, 'key', 'signed with ' + shows(key), e.line)
            ok = len(args) == 2 and args[0] == sym('load') and stamped(args[1], o)
            ctx.ob('C21.create', ok, r.func, 'content', 'signs ' + ', '.join(shows(x) for x in args), e.line)
            for x in args + [strip(e.res)]:
                ctx.ob('C21.create', contains(payload, lambda y: isinstance(y, tuple) and plain(y) == plain(x)), r.func, 'cookie',
                       'the cookie does not carry ' + shows(x), e.line)


def stamped(t, o):
    return t == sym('timestamp') or (o.facts.get(('T', sym('timestamp'))) is not True and contains(t, lambda x: is_call(x, 'time')))


def dealer(ctx):
    srv = ('attr', SELF, 'srv')
    for meth, callee in (('create_cookie', 'make_cookie'), ('delete_cookie', 'make_cookie'), ('get_cookie_value', 'parse_cookie')):
        r = ctx.run(M + 'CookieDealer.' + meth, opaque={'make_cookie', 'parse_cookie'})
        if r is None:
            continue
        for o in r.outs:
            if o.kind != 'return':
                continue
            mine = calls(o, callee)
            v = r.value(o)
            if v != C(None):
                ctx.ob('C21.dealer', bool(mine), r.func, 'return', 'yields {} without {}'.format(shows(v), callee))
            for _, e, f in mine:
                for n, i, a in (('seed', 1 if callee == 'parse_cookie' else 2, 'seed'), ('enc_key', 3 if callee == 'parse_cookie' else None, 'symkey')):
                    x = strip(arg(e, n, i, C(None)))
                    ctx.ob('C21.dealer', x[0] == 'attr' and x[2] == a and is_srv(x[1]), r.func, n, '{} is {}'.format(n, shows(x)), e.line)
                for n in FLAGS.values():
                    x = arg(e, n, None, C(True))
                    ctx.ob('C21.flags', x == C(True), r.func, n, 'asks for a cookie that is not ' + n, e.line)
            if callee == 'parse_cookie' and v != C(None):
                ps = [strip(e.res) for _, e, _ in mine]
                ok = v[0] == 'tup' and all(any(contains(x, lambda y: y == p) for p in ps) for x in v[1])
                ctx.ob('C21.dealer', ok, r.func, 'return', 'returns ' + shows(v))
                if ok:
                    st = [it(p, 1) for p in ps]
                    ctx.ob('C21.stamp', any(known_eq(o.facts, s, v[1][1], r.eng) for s in st), r.func, 'time stamp',
                           'the time stamp in the content is not compared with the verified one')


def lifetime(ctx):
    """the lifetime asked for, or else the one configured"""
    ctx.rule('C21.lifetime', 'a cookie lives as long as was asked for, else as long as is configured; one that is to be deleted does not', 4)
    for ttl, kill, want in ((5, False, 5), (0, False, 0), (3600, False, 3600), (-1, False, 60), (-1, True, None), (5, True, None)):
        r = ctx.run(M + 'CookieDealer.create_cookie', opaque={'make_cookie'}, fold=True, results={'time': C(1700000000)}, given={('attr', SELF, 'cookie_ttl'): C(60)},
                    args={'value': C('v'), 'typ': C('t'), 'cookie_name': C('the cookie'), 'ttl': C(ttl), 'kill': C(kill)})
        for o in r.returns if r else ():
            for _, e, _ in calls(o, 'make_cookie'):
                x = strip(arg(e, 'expire', 4, C(0)))
                ok = is_const(x) and isinstance(x[2], int) and (x[2] < 0 if want is None else x[2] == want)
                ctx.ob('C21.lifetime', ok, r.func, 'expire', 'expires in {} with ttl {}{}'.format(shows(x), ttl, ', to be deleted' if kill else ''), e.line)


def value(ctx):
    """the content made for a value is taken apart into that value again"""
    stamp = '1700000000'
    for v, typ in (('alice', 'sso'), ('a::b', 'sso'), ('x::' + stamp, 'session'), ('::', 'sso'), ('', 'sso')):
        r = ctx.run(M + 'CookieDealer.create_cookie', opaque={'make_cookie'}, fold=True, results={'time': C(int(stamp))},
                    args={'value': C(v), 'typ': C(typ), 'cookie_name': C('the cookie'), 'ttl': C(5)})
        loads = {arg(e, 'load', 1, C(None)) for o in (r.outs if r else ()) for _, e, _ in calls(o, 'make_cookie')}
        for load in loads:
            if not is_const(load) or not isinstance(load[2], str):
                ctx.unclear('the content of a cookie: ' + show(load)[:60])
                continue
            q = ctx.run(M + 'CookieDealer.get_cookie_value', opaque={'parse_cookie'}, fold=True, args={'cookie': C('text'), 'cookie_name': C('the cookie')},
                        results={'parse_cookie': ('tup', (load, C(stamp)))})
            got = {q.value(o) for o in q.outs if o.kind == 'return'} - {C(None)} if q else set()
            if any(g[0] != 'tup' or not all(is_const(x) for x in g[1]) for g in got):
                ctx.unclear('what a cookie yields: ' + show(sorted(got, key=repr)[0])[:60])
                continue
            ctx.ob('C21.value', got == {('tup', (C(v), C(stamp), C(typ)))}, M + 'CookieDealer.get_cookie_value', 'value',
                   'a cookie made for {!r} yields {}'.format(v, ', '.join(show(g) for g in got) or 'nothing'))


def is_srv(x):
    return x in (at(SELF, 'srv'), at(SELF, '_srv')) or (x[0] in ('attr', 'call') and 'srv' in repr(x) and contains(x, lambda y: y == SELF))
