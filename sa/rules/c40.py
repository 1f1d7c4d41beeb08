"""A session leaves nothing behind outside its record.

Every function that changes something and is not part of setting a client up is interpreted: nothing it changes may be reached from the
handler, a client, its context or its services, other than by way of the session store. Requests of every service are then built with
lists of unknown content in every place arguments come from, none of which may be changed on the way. No function may be wrapped in
something that keeps results, or have a default that is made once of something that differs from call to call.
"""
import ast

from ..patching import kept, once
from ..q import *
from ..terms import C, show
from .c36 import PIPE, hooks, message_type

LONG = ('oidcrp.rp_handler.RPHandler', 'oidcrp.entity.Entity', 'oidcrp.service.Service', 'oidcrp.service_context.ServiceContext', 'oidcrp.client_auth.ClientAuthnMethod')
NAMES = {'client', 'service', 'services', 'context', 'service_context', 'entity', 'rp'}
FIND = {'get_client_from_session_key', 'get_service', 'client_get', 'get_services', 'get_service_by_endpoint_name', 'get_service_context'}
ARGS = {'request_args', 'req_args', 'behaviour_args'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'popitem', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add', 'discard', 'set', '__setitem__',
            '__delitem__', '__setattr__', 'set_client_id', 'set_defaults'}
# what makes a client ready for its provider
MODULES = {'oidcrp.oauth2.provider_info_discovery', 'oidcrp.oidc.provider_info_discovery', 'oidcrp.oidc.registration', 'oidcrp.oidc.read_registration',
           'oidcrp.oidc.webfinger', 'oidcrp.service_context', 'oidcrp.service_factory', 'oidcrp.configure', 'oidcrp.cookie', 'oidcrp.http', 'oidcrp.logging',
           'oidcrp.state_interface', 'oidcrp.entity', 'oidcrp.oauth2.registration', 'oidcrp.oauth2.add_on'}
SETUP = {'oidcrp.rp_handler.RPHandler.' + x for x in ('do_provider_info', 'init_client', 'do_client_registration', 'client_setup', 'do_webfinger', '__init__')} | {
    'oidcrp.oauth2.Client.set_client_id', 'oidcrp.oauth2.dynamic_provider_info_discovery', 'oidcrp.service.init_services', 'oidcrp.service.gather_constructors',
    'oidcrp.util.set_param', 'oidcrp.util.replace', 'oidcrp.util.load_configuration', 'oidcrp.util.load_yaml_config'}
DPOP = 'dpop'


def check(ctx):
    ctx.rule('C40.kept', 'nothing is kept in the handler, a client, its context or its services', 30)
    ctx.rule('C40.given', 'what is nested in the arguments of a caller stays as it is', 20)
    ctx.rule('C40.through', 'building a request changes nothing its arguments were taken from', 40)
    ctx.rule('C40.earlier', 'no function gives what an earlier call of it has given', 100)
    for name in todo(ctx):
        direct(ctx, name)
    for f in ctx.prog.all_functions():
        if not f.module.is_repo:
            continue
        for line, what in kept(ctx.prog, f):
            ctx.ob('C40.earlier', False, f, what, 'the results of earlier calls are kept by ' + what, line)
        for line, what in once(ctx.prog, f):
            ctx.ob('C40.earlier', False, f, what, 'what {} gave when the module was loaded is used in every call'.format(what), line)
        ctx.ob('C40.earlier', True, f, 'function', '')
    for c in ctx.prog.subclasses('oidcrp.service.Service'):
        if c.module.is_repo and c.module.name not in MODULES:
            through(ctx, c)


def changes(f):
    for n in ast.walk(f.node):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)):
            return True
        if isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS or
                                        isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr')):
            return True
    return False


def todo(ctx):
    res = []
    for f in ctx.prog.all_functions():
        if not f.module.is_repo or '<' in f.dotted or not changes(f):
            continue
        for r in roots(ctx, f.dotted):
            g = ctx.prog.func(r)
            if r in res or r in SETUP or g is None or g.module.name in MODULES or g.name in ('__init__', 'add_support', 'do_add_ons'):
                continue
            res.append(r)
    return res


def way(t):
    """where something is reached from, and the names on the way"""
    names = []
    while t[0] in ('attr', 'item'):
        names.insert(0, t[2] if t[0] == 'attr' else t[2][2] if is_const(t[2]) else '[]')
        t = t[1]
    return t, names


def long_lived(ctx, f, t):
    root, names = way(t)
    if 'state' in names[:2] and root != SELF or '_db' in names or 'state' in names[:1]:
        return False
    if root[0] == 'owner':
        return True
    if root == SELF:
        return f.cls is not None and any(f.cls.dotted == x or f.cls in ctx.prog.subclasses(x) for x in LONG)
    if root[0] == 'sym':
        return root[1] in NAMES
    return is_call(root, *FIND)


def direct(ctx, name):
    f = ctx.prog.func(name)
    r = ctx.run(name, opaque={'construct_request_parameter'} - {f.name}, keep=lambda a: a[0] in ('T', 'in', 'none') and mentions(a, C(DPOP)) and mentions(a, C('key')))
    for o in r.outs if r else ():
        made = False
        for e, facts in o.trace:
            if e.recv is None or e.kind == 'call' and e.name not in MUTATORS:
                continue
            if e.kind not in ('setattr', 'setitem', 'delitem', 'delattr', 'update', 'append', 'remove', 'call'):
                continue
            t = base_of(strip(e.recv))
            if t[0] == 'obj':
                continue
            root, names = way(t)
            if long_lived(ctx, f, t):
                made = made or own_key(r, t, names, facts)
                ctx.ob('C40.kept', made and names[-2:] == ['add_on', DPOP], name, e.name, 'changes ' + show(t)[:80], e.line)
            elif root[0] == 'sym' and root[1] in ARGS and names:
                ctx.ob('C40.given', False, name, e.name, 'changes ' + show(t)[:80], e.line)
            else:
                ctx.ob('C40.kept', True, name, e.name, '')
    if any(a.arg in ARGS for a in f.node.args.args):
        ctx.ob('C40.given', True, name, 'arguments', '')


def own_key(r, t, names, facts):
    """the key a client makes for its proofs when the first of them is needed"""
    return names[-2:] == ['add_on', DPOP] and (truthy(facts, r.eng, it(t, 'key')) is False or fact(facts, r.eng, 'in', C('key'), t) is False)


def through(ctx, c):
    req, pre, post = message_type(ctx, c), hooks(ctx, c, 'pre_construct'), hooks(ctx, c, 'post_construct')
    m = ctx.prog.find_method(c, 'construct')
    par = params_of(ctx, req) if req else None
    if par is None or pre is None or post is None or m is None:
        ctx.unclear('how requests of {} are built'.format(c.dotted))
        return
    lists = [k for k in par if par[k] and par[k][0]]
    if not lists:
        return
    for place in ('caller', 'configured', 'default', 'negotiated', 'registration', 'own'):
        mine = {k: sym('{} {}'.format(place, k)) for k in lists}

        def at_(p):
            return dct(mine if p == place else {})
        given = {('attr', SELF, 'pre_construct'): pre, ('attr', SELF, 'post_construct'): post if place == 'caller' else lst(),
                 ('attr', SELF, 'conf'): dct({'request_args': at_('configured')}), ('attr', SELF, 'default_request_args'): at_('default'),
                 ('attr', CTX, 'behaviour'): at_('negotiated'), ('attr', CTX, 'register_args'): at_('registration'),
                 ('attr', at(SELF, 'msg_type'), 'c_param'): c_param(par), ('attr', CTX, 'config'): dct({}),
                 ('attr', CTX, 'callback'): dct({'code': 'cb1', 'implicit': 'cb2', 'form_post': 'cb3'}), ('attr', CTX, 'redirect_uris'): lst('cb')}
        given.update({('attr', CTX, k): mine[k] if place == 'own' and k in mine else C(None) for k in par if ('attr', CTX, k) not in given and k != 'state'})
        args = {'state': C('the state'), 'response_type': lst('code')}
        if place == 'caller':
            args.update({k: v for k, v in mine.items() if k != 'response_type'})
        r = ctx.run(c.dotted + '.construct', unroll_max=80, transparent=PIPE, inline=PIPE, given=given,
                    results={'get_item': dct({k: C('stored ' + k) for k in par}), 'create_state': C('the state')},
                    args={'request_args': dct(args), 'kwargs': dct({'state': 'the state'})})
        these = set(mine.values())
        for o in r.outs if r else ():
            bad = False
            for e, _ in o.trace:
                if e.recv is None or e.kind == 'call' and e.name not in MUTATORS:
                    continue
                root, _ = way(base_of(strip(e.recv)))
                if root in these:
                    bad = True
                    ctx.ob('C40.through', False, c.dotted + '.construct', e.name, 'changes {} that is used for a request'.format(show(root)), e.line)
            if not bad:
                ctx.ob('C40.through', True, c.dotted + '.construct', place, '')
