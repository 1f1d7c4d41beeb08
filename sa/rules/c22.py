"""Each provider is served by a client of its own, which shares nothing that is modified."""
import ast

from ..patching import earlier, names_in
from ..q import *
from ..shared import Shared
from ..terms import C, show

RPH = 'oidcrp.rp_handler.RPHandler.'
SETTINGS = ('client_configs', 'services', 'httpc_params', 'keyjar', 'client_authn_factory')
CLIENTS = at(SELF, 'issuer2rp')


def check(ctx):
    shared(ctx)
    private(ctx)
    registry(ctx)
    writers(ctx)
    ctx.rule('C22.now', 'what the handler gives for a provider is what it has now', 10)
    earlier(ctx, 'C22.now', lambda f: f.module.name in ('oidcrp.rp_handler', 'oidcrp.entity', 'oidcrp.oauth2', 'oidcrp.service_context'))


def shared(ctx):
    ctx.rule('C22.shared', 'nothing that clients of different providers share is modified', 40)
    sh = Shared(ctx.prog, settings=SETTINGS)
    ok = sh.solve()
    ctx.notes.append('{} shared places, {} expressions evaluated, fixed point reached: {}'.format(len(sh.sites), sh.nexpr, ok))
    hit = set(s for _, _, s in sh.mutations)
    for s in sorted(sh.sites):
        if s not in hit:
            ctx.ob('C22.shared', True, None, s, '')
    for (dotted, line, site), (kind, f) in sorted(sh.mutations.items(), key=lambda x: x[0]):
        ctx.ob('C22.shared', False, f, site, 'modifies {}{}'.format('' if kind == 'S' else 'something in ', site), line)


def private(ctx):
    ctx.rule('C22.copy', 'a client gets a private copy of its configuration', 2)
    ctx.rule('C22.config', 'a client is made from the configuration for its issuer, or from the one for unknown issuers', 2)
    r = ctx.run(RPH + 'init_client', transparent={'pick_config'})
    if r is None:
        return
    seen = False
    for o in r.outs:
        for _, e, _ in calls(o, 'client_cls'):
            seen = True
            raw = r.eng.freeze(o.state, dict(e.kw).get('config', C(None)))
            ctx.ob('C22.copy', not exposed(raw), r.func, 'config', 'the client works on ' + show(raw), e.line)
            ctx.ob('C22.copy', contains(raw, is_config), r.func, 'config', 'the configuration of the client is ' + show(raw),
                   e.line)
            used = {x[2] for x in walk(raw) if isinstance(x, tuple) and x[:1] == ('item',) and is_config(x[1])}
            ctx.ob('C22.config', used and used <= {sym('issuer'), C('')}, r.func, 'config', 'uses the configuration of {}'.format([show(x) for x in used]), e.line)
            if used == {C('')}:
                for _, v in r.get(o, dict(e.kw)['config'], 'issuer'):
                    ctx.ob('C22.config', v is not None and strip(v) == sym('issuer'), r.func, 'issuer', 'a client made for an issuer is for ' + shows(v), e.line)
    ctx.ob('C22.copy', seen, r.func, 'client_cls', 'no client is created')
    ctx.rule('C22.keys', 'a client has a key jar of its own, with the keys of the handler', 2)
    jar = at(SELF, 'keyjar')
    for o in r.outs:
        for e in o.events:
            if e.kind in ('setattr', 'setitem'):
                ctx.ob('C22.keys', strip(e.args[-1]) != jar, r.func, 'keyjar', 'the key jar of the handler becomes that of the client', e.line)
            if e.kind == 'call' and e.name in ('client_cls', 'set', 'update', '__init__'):
                ctx.ob('C22.keys', not any(strip(x) == jar for x in list(e.args) + [v for _, v in e.kw]), r.func, 'keyjar',
                       'the key jar of the handler is given to the client', e.line)
        if o.kind == 'return':
            got = [x for e in o.events if e.kind == 'call' and e.recv is not None and mentions(strip(e.recv), strip(o.value))
                   for x in list(e.args) + [v for _, v in e.kw]]
            none = [a for a, v in o.facts.items() if a[0] == 'T' and v is False and mentions(a[1], jar)]
            ctx.ob('C22.keys', any(mentions(strip(x), jar) for x in got) or bool(none), r.func, 'keys', 'the client does not get the keys of the handler')


def is_config(t):
    return t == at(SELF, 'client_configs')


def exposed(t):
    """whether something of the configurations is reachable without a deep copy in between"""
    if not isinstance(t, tuple) or not t or t[0] in ('c', 'deep'):
        return False
    if is_config(t):
        return True
    if t[0] == 'item':
        return exposed(t[1])
    return any(exposed(x) for x in t if isinstance(x, tuple))


def registry(ctx):
    ctx.rule('C22.issuer', 'a client is registered under the issuer it talks to', 2)
    ctx.rule('C22.reuse', 'a client that is registered is returned and never replaced', 4)
    r = ctx.run(RPH + 'client_setup', keep=lambda a: a[0] == 'in')
    if r is None:
        return
    stored = found = 0
    for o in r.outs:
        puts = [(i, e, f) for i, e, f in events(o, 'setitem') if strip(e.recv) == CLIENTS]
        asked = [e for _, e, _ in calls(o, 'do_provider_info')]
        talks = dict((asks(e), e) for e in asked)
        for i, e, f in puts:
            stored += 1
            k, v = strip(r.eng.freeze(o.state, e.args[0])), strip(r.eng.freeze(o.state, e.args[1]))
            new = None
            if is_call(k, 'do_provider_info'):
                new = strip(callarg(k, 'client', 0, C(None)))
            elif k == at(context_of(v), 'issuer') or k == it(at(context_of(v), 'provider_info'), 'issuer'):
                new = v if v in talks else None
            ctx.ob('C22.issuer', new is not None and new == v, r.func, 'issuer2rp',
                   '{} is registered under {}'.format(show(v), show(k)), e.line)
            ctx.ob('C22.reuse', any(g.get(r.eng.norm_atom(('in', e.args[0], CLIENTS))) is False for g in points(o, i, f)), r.func, 'issuer2rp',
                   'the client registered under {} may be replaced'.format(show(k)), e.line)
            ctx.ob('C22.issuer', is_call(v, 'init_client', 'do_webfinger'), r.func, 'client', 'registers ' + show(v), e.line)
        if o.kind != 'return':
            continue
        v = r.value(o)
        if v[0] == 'item' and v[1] == CLIENTS:
            found += 1
            k = v[2]
            ok = k in accepted_names() or is_call(k, 'do_provider_info')
            ctx.ob('C22.reuse', ok, r.func, 'return', 'returns the client registered under ' + show(k))
            if not is_call(k, 'do_provider_info'):
                ctx.ob('C22.reuse', not puts and not calls(o, 'do_client_registration', 'init_client', 'do_provider_info'), r.func,
                       'return', 'a client is created next to the one registered')
        else:
            ctx.ob('C22.issuer', any(strip(r.eng.freeze(o.state, e.args[1])) == v for _, e, _ in puts), r.func, 'return',
                   'returns {} without registering it'.format(show(v)))
        ctx.ob('C22.reuse', not [e for _, e, _ in calls(o, 'do_client_registration') if not puts], r.func, 'registration',
               'registers a client with the provider which is then dropped')
    ctx.ob('C22.reuse', found > 0, r.func, 'return', 'no client is ever reused')
    ctx.ob('C22.issuer', stored > 0, r.func, 'issuer2rp', 'no client is ever registered')


def points(o, i, f):
    """what is known when a client is stored, and what was known since the issuer has been known: see writers"""
    res = [f]
    asked = False
    for j, e, g in events(o, 'call'):
        if j > i:
            break
        if asked:
            res.append(g)
        asked = asked or e.name == 'do_provider_info'
    return res


def asks(e):
    return strip(arg(e, 'client', 0) or C(None))


def accepted_names():
    wf = ('call', ('meth', SELF, 'do_webfinger'), (), (('user', sym('user')),))
    found = [sym('iss_id'), at(context_of(wf), 'issuer')]
    return found + [('item', at(SELF, 'hash2issuer'), x) for x in found]


def writers(ctx):
    """nobody else puts clients into or takes clients out of the handler"""
    ctx.rule('C22.writers', 'clients are registered in one place', 1)
    for f in ctx.prog.all_functions():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == 'issuer2rp':
                what = use(f.node, n)
                if what is None:
                    continue
                ok = f.cls is not None and f.cls.dotted + '.' == RPH and \
                    (what == 'bind' and f.name == '__init__' or what == 'store' and reached(ctx, f))
                ctx.ob('C22.writers', ok, f, what, 'the clients of the handler are changed ({})'.format(what), n.lineno)


def use(root, n):
    if isinstance(n.ctx, (ast.Store, ast.Del)):
        return 'bind' if isinstance(n.ctx, ast.Store) else 'delete'
    for p in ast.walk(root):
        if isinstance(p, ast.Subscript) and p.value is n and not isinstance(p.ctx, ast.Load):
            return 'store' if isinstance(p.ctx, ast.Store) else 'delete'
        if isinstance(p, ast.Attribute) and p.value is n and p.attr in ('pop', 'popitem', 'clear', 'update', 'setdefault'):
            return p.attr
    return None


def reached(ctx, f):
    """client_setup or something only client_setup uses"""
    return f.name == 'client_setup' or all(c == RPH + 'client_setup' for c in callers(ctx, f.name))
