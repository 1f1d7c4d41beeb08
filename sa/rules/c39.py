"""Private keys and secrets stay with the client.

Every function that handles the content of a key jar is interpreted. What is exported with private parts may only go into a key jar,
and what is put into a key jar is bound to an identifier that fits where it comes from.
"""
import ast

from ..q import *
from ..terms import C, contains, is_const, show

EXPORT = {'export_jwks': 0, 'export_jwks_as_json': 0, 'serialize': 0}
# name -> positions of owner and of what is bound
BIND = {'load_keys': ('issuer_id', 0, ('jwks_uri', 'jwks'), (1, 2)), 'add_url': ('issuer_id', 0, ('url',), (1,)), 'add_kb': ('issuer_id', 0, ('kb',), (1,)),
        'import_jwks': ('issuer_id', 1, ('jwks',), (0,)), 'import_jwks_as_json': ('issuer_id', 1, ('jwks',), (0,)),
        'import_jwks_from_file': ('issuer_id', 1, ('filename',), (0,)), 'add_symmetric': ('issuer_id', 0, ('key',), (1,))}
SIGN = {'get_signing_key': 1, 'get_issuer_keys': 0, 'get_encrypt_key': 1, 'get_decrypt_key': 1, 'get_verify_key': 1}
INTO = {'import_jwks', 'import_jwks_as_json', 'loads', 'dumps', 'load'}
CONTEXT, REGISTER = 'oidcrp.service_context.ServiceContext.__init__', 'oidcmsg.oidc.RegistrationRequest'
OLD = {'issuer_id': ('issuer', 'owner', 'issuer_id')}


def check(ctx):
    ctx.rule('C39.public', 'what is exported is public, or goes into a key jar only', 6)
    ctx.rule('C39.bound', 'keys are bound to an identifier of where they come from', 10)
    ctx.rule('C39.sign', 'what is signed is signed with keys of the client', 3)
    ctx.rule('C39.encrypt', 'what is encrypted is encrypted with keys of the one it is for', 1)
    names = set(EXPORT) | set(BIND) | set(SIGN) | {'dump'}
    todo = {}
    for f in ctx.prog.all_functions():
        if not f.module.is_repo or '<' in f.dotted:
            continue
        used = {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)} & names
        if not used or f.module.name.startswith('oidcrp.cookie'):
            continue
        for root in roots(ctx, f.dotted):
            x = todo.setdefault(root, (set(), set()))
            x[0].add(f.dotted)
            x[1].update(used)
    for root, (parts_, used) in todo.items():
        f = ctx.prog.func(root)
        # what is done before and after does not matter here
        more = {}
        if f.dotted == CONTEXT:
            more = {'harmless': {'__init__'}, 'args': {'kwargs': dct({}), 'base_url': C('https://rp'), 'keyjar': C(None), 'state': C(None), 'config': dct({'client_id': 'the client id', 'client_secret': 'the client secret', 'provider_info': dct({'issuer': 'the issuer'}), 'redirect_uris': lst('https://cb'), 'behaviour': dct({}),
                                                'callback': dct({}), 'issuer': 'the issuer', 'hash_seed': 'seed', 'clock_skew': 15})},
                    'given': {('attr', ('cls', REGISTER), 'c_param'): c_param({'jwks': (False, False)})}}
        r = ctx.run(f.dotted, **more, opaque={'import_keys', 'client_cls', 'init_services', 'init_key_jar', '_keyjar', 'match_preferences', 'oidc_post_construct', 'verify_header'}, max_steps=400000)
        seen = set()
        for o in r.outs if r else ():
            for _, e, facts in calls(o, *names):
                if e.func not in parts_:
                    continue
                seen.add(e.name)
                if e.name in EXPORT or e.name == 'dump':
                    exported(ctx, f, r, o, e)
                if e.name in BIND:
                    bound(ctx, f, r, o, e)
                if e.name in SIGN:
                    picked(ctx, f, r, o, e)
        for n in used - seen - {'dump', 'serialize'}:
            ctx.unclear('{} is not seen to call {}'.format(f.dotted, n))


def named(e, name, pos):
    for n in OLD.get(name, (name,)):
        v = arg(e, n, pos)
        if v is not None:
            return v
    return None


def exported(ctx, f, r, o, e):
    if e.name == 'serialize' and e.recv is not None and r.eng.typeof(strip(e.recv), o.state) is not None and not named(e, 'private', 0):
        return
    private = arg(e, 'private', 0)
    if e.name != 'dump' and (private is None or is_const(private) and not private[2]):
        ctx.ob('C39.public', True, f.dotted, e.name, '')
        return
    if e.name == 'dump' and not (e.recv is not None and show(strip(e.recv)).endswith(('keyjar', 'key_jar', 'jar'))):
        return
    if e.name == 'serialize' and private is not None and is_const(private) and isinstance(private[2], str):
        return      # a message, in this form

    def inside(t):
        return t is not None and contains(t, lambda x: x == e.res)
    for x in o.events:
        if x is e or x.name in INTO and (x.kind == 'call'):
            continue
        vals = list(x.args) + [v for _, v in x.kw]
        ctx.ob('C39.public', not any(inside(v) for v in vals), f.dotted, e.name, 'private keys are used in {} {}'.format(x.kind, x.name), e.line)
    for x in o.events:
        if x.kind == 'call' and x.name in ('dumps', 'loads') and any(inside(v) for v in x.args):
            ctx.ob('C39.public', not contains(strip(r.value(o)) if o.kind == 'return' else C(None), lambda t: t == x.res), f.dotted, e.name, 'private keys are returned', e.line)
    if o.kind == 'return':
        ctx.ob('C39.public', any(x.kind == 'call' and x.name in INTO and any(inside(v) for v in list(x.args) + [v for _, v in x.kw]) for x in o.events),
               f.dotted, e.name, 'private keys are exported but not put into a key jar', e.line)
        ctx.ob('C39.public', not inside(strip(r.value(o))), f.dotted, e.name, 'private keys are returned', e.line)


def own_id(t):
    """True: an identifier of the client, False: of the provider, None: neither"""
    t = strip(t)
    if t in (C(''), C('the client id')):
        return True
    if t == C('the issuer'):
        return False
    if t[0] in ('attr', 'item', 'sym'):
        last = t[2] if t[0] == 'attr' else t[2] if t[0] == 'item' else t[1]
        last = last[2] if isinstance(last, tuple) and is_const(last) else last
        if last in ('client_id', 'base_url', 'entity_id'):
            return True
        if last in ('issuer', 'iss', '_iss'):
            return False
    if t[0] == 'call' and 'issuer' in callname(t):
        return False
    if t[0] == 'call' and callname(t) in ('get', 'pop') and any(x in (C('issuer'), C('client_id')) for x in t[2]):
        return C('client_id') in t[2]
    return None


def source(t):
    """'own', 'secret', 'provider' or None"""
    t = strip(t)
    if contains(t, lambda x: x[0] == 'call' and callname(x).startswith('export_jwks')):
        return 'own'
    if t == C('the client secret') or contains(t, lambda x: x[0] == 'attr' and x[2] == 'client_secret' or x[0] == 'item' and x[2] == C('client_secret') or
                x[0] == 'call' and callname(x) in ('get', 'pop') and C('client_secret') in x[2]):
        return 'secret'
    if contains(t, lambda x: x[0] == 'item' and x[2] in (C('jwks'), C('jwks_uri')) and not contains(x, lambda y: y[0] == 'attr' and y[2] in ('config', 'conf')) or
                x[0] == 'call' and callname(x) == 'get' and (C('jwks') in x[2] or C('jwks_uri') in x[2])):
        return 'provider'
    if contains(t, lambda x: x[0] == 'attr' and x[2] == 'provider_info'):
        return 'provider'
    return None


def bound(ctx, f, r, o, e):
    n, p, whats, positions = BIND[e.name]
    owner = named(e, n, p)
    what = [v for v in (arg(e, w, q) for w, q in zip(whats, positions)) if v is not None and v != C(None)]
    if owner is None or not what:
        ctx.unclear('{}: what is bound to whom by {}'.format(f.dotted, e.name))
        return
    owner = strip(r.eng.freeze(o.state, owner))
    mine = own_id(owner)
    for v in what:
        v = strip(r.eng.freeze(o.state, v))
        src = source(v)
        if src is None:
            # said by the configuration of the client, which says for whom
            ctx.ob('C39.bound', True, f.dotted, e.name, '')
        elif src == 'provider':
            ok = mine is False or mine is None and owner[0] not in ('c',) and not contains(owner, lambda x: x[0] == 'attr' and x[2] in ('client_id', 'base_url'))
            ctx.ob('C39.bound', ok, f.dotted, e.name, 'keys received from the provider are bound to ' + show(owner), e.line)
        elif mine is None:
            ctx.unclear('{}: {} binds keys of the client to {}'.format(f.dotted, e.name, show(owner)[:60]))
        else:
            ctx.ob('C39.bound', mine, f.dotted, e.name, '{} is bound to {}'.format('the client secret' if src == 'secret' else 'a private key of the client', show(owner)), e.line)
            if src == 'own':
                for x in (x for x in walk(v) if x[0] == 'call' and callname(x).startswith('export_jwks')):
                    whose = callarg(x, 'issuer_id', 1) or C('')
                    ctx.ob('C39.bound', own_id(whose) is not False, f.dotted, e.name, 'keys of {} are bound to {}'.format(show(whose), show(owner)), e.line)


def picked(ctx, f, r, o, e):
    who = named(e, 'issuer_id', SIGN[e.name])
    mine = True if who is None else own_id(r.eng.freeze(o.state, who))
    if e.name in ('get_signing_key', 'get_issuer_keys', 'get_decrypt_key'):
        if mine is None:
            ctx.unclear('{}: {} takes keys of {}'.format(f.dotted, e.name, show(who)[:60]))
        else:
            ctx.ob('C39.sign', mine, f.dotted, e.name, 'takes keys of ' + shows(who), e.line)
    elif e.name == 'get_encrypt_key':
        ctx.ob('C39.encrypt', mine is not True, f.dotted, e.name, 'takes keys of ' + shows(who), e.line)
