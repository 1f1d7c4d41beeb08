"""Hooks all run, once, in order, and what they return is what is used."""
from ..q import *
from ..terms import C, contains, show

PIPE = {'construct_request', 'construct', 'do_pre_construct', 'do_post_construct', 'method_args', 'get_headers', 'get_authn_header',
        'init_authentication_method'}
OWN = {'oidcrp.oidc.webfinger.WebFinger.get_request_parameters', 'oidcrp.oauth2.provider_info_discovery.ProviderInfoDiscovery.get_request_parameters'}
MORE = {'state': sym('the state'), 'endpoint': 'https://example.com/other', 'behaviour_args': sym('the behaviour')}
GROUPS = (('pre', 'pre_construct'), ('post', 'post_construct'), ('head', 'construct_extra_headers'))


def check(ctx):
    ctx.rule('C31.all', 'every hook registered runs exactly once and in the order registered', 60)
    ctx.rule('C31.pre', 'an argument hook gets the arguments, then what the one before it returned', 60)
    ctx.rule('C31.message', 'the message is built from what the last of them returned', 30)
    ctx.rule('C31.post', 'a message hook gets the message, then what the one before it returned', 60)
    ctx.rule('C31.passed', 'what argument hooks leave for message hooks reaches them', 30)
    ctx.rule('C31.config', 'what is configured for hooks reaches them and stays as it is', 60)
    ctx.rule('C31.sent', 'what the last message hook returned is what is sent', 30)
    ctx.rule('C31.authn', 'the client authentication sees the finished message', 20)
    ctx.rule('C31.headers', 'a header hook gets the headers so far, the method, the endpoint and the message', 120)
    ctx.rule('C31.added', 'the headers sent are those the last header hook returned', 30)
    ctx.rule('C31.registered', "hooks of a configuration are registered after the service's own, in the order given", 2)
    registered(ctx)
    done = set()
    for m in impls(ctx, 'oidcrp.service.Service', 'get_request_parameters'):
        f = ctx.prog.func(m)
        if f.dotted in OWN or f.dotted in done:     # these have no message
            continue
        done.add(f.dotted)
        for n, method, kw, mine in ((3, 'POST', MORE, True), (3, 'GET', {}, True), (2, '', MORE, False), (1, 'POST', {}, True), (0, 'GET', MORE, True),
                                    (0, 'POST', {}, False)):
            pipeline(ctx, m, n, method, kw, mine)


def hook(e):
    t = strip(e.res)
    return t[1][1] if is_call(t) and t[1][0] == 'sym' else None


def pipeline(ctx, m, n, method, kw, mine):
    names = {p: [p + str(i + 1) for i in range(n)] for p, _ in GROUPS}
    given = {('attr', SELF, a): lst(*[sym(x) for x in names[p]]) for p, a in GROUPS}
    conf = {'pre_construct': sym('for argument hooks'), 'post_construct': sym('for message hooks')} if n == 2 else {}
    given[('attr', SELF, 'conf')] = dct(conf)
    given[('attr', SELF, 'endpoint')] = C('https://example.com/endpoint')
    args = dct({'mine': sym('a parameter')}) if mine else C(None)
    r = ctx.run(m, transparent=PIPE, given=given, args={'kwargs': dct(kw), 'request_args': args, 'method': C(method), 'authn_method': sym('the method'), 'request_body_type': C('json')})
    every = names['pre'] + names['post'] + names['head']
    for o in r.outs if r else ():
        for _, e, _ in effects(o):
            ctx.ob('C31.config', e.recv is None or base_of(strip(e.recv)) not in conf.values() and strip(e.recv) != at(SELF, 'conf'), r.func, e.name,
                   'what is configured for the hooks is modified, also for requests to come', e.line)
    for o in r.returns if r else ():
        ran = [(i, hook(e), e, f) for i, e, f in events(o, 'call') if hook(e) in every]
        got = [h for _, h, _, _ in ran]
        for p, a in GROUPS:
            these = [h for h in got if h in names[p]]
            ctx.ob('C31.all', these == names[p], r.func, a, 'of {} these ran: {}'.format(names[p], these))
        if sorted(got) != sorted(every):
            continue
        ctx.ob('C31.all', got == every, r.func, 'order', 'they ran in the order {}'.format(got))
        res = {h: strip(e.res) for _, h, e, _ in ran}
        ev = {h: (i, e, f) for i, h, e, f in ran}
        before(ctx, r, o, names['pre'], ev, res, mine)
        box(ctx, r, names['pre'], ev, res)
        for p, x in (('pre', 'pre_construct'), ('post', 'post_construct')):
            for h in names[p] if conf else ():
                stars = [v for k, v in ev[h][1].kw if k == '**']
                ctx.ob('C31.config', any(mentions(strip(v), conf[x]) for v in stars), r.func, x, 'what is configured for the hooks does not reach them')
        made = [(i, e) for i, e, _ in calls(o, 'gather_request_args')]
        built(ctx, r, o, names['pre'], res, made, mine)
        msg = after(ctx, r, o, names, ev, res, made)
        for s, v in r.get(o, r.value(o), 'request'):
            ctx.ob('C31.sent', v is not None and same(v, msg), r.func, 'request', 'what is sent is ' + shows(v)[:80])
        for k in ('get_http_url', 'get_http_body'):
            for i, e, _ in calls(o, k):
                x = arg(e, 'req', 0 if k == 'get_http_body' else 1)
                ctx.ob('C31.sent', x is not None and same(x, msg), r.func, k, 'what is sent is ' + shows(x)[:80], e.line)
        headers(ctx, r, o, names['head'], ev, res, msg, method)


def same(a, b):
    a, b = strip(a), strip(b)
    return a == b or base_of(a) == base_of(b) and base_of(a)[0] != 'obj' or first(a) == first(b)


def first(t):
    """an object made here, whatever has been put into it since"""
    return t[:3] if t[0] == 'obj' and t[2] is not None else t


def before(ctx, r, o, hooks, ev, res, mine):
    for j, h in enumerate(hooks):
        i, e, f = ev[h]
        a = arg(e, 'request_args', 0)
        ctx.ob('C31.pre', 'service' in dict(e.kw) and strip(dict(e.kw)['service']) == SELF, r.func, 'service', 'the hook is not told the service')
        if a is None:
            ctx.ob('C31.pre', False, r.func, 'arguments', 'gets no arguments')
        elif j == 0:
            ok = exactly(r, o, strip(a), mine)
            ctx.ob('C31.pre', ok, r.func, 'arguments', 'the first gets ' + show(a)[:80])
        else:
            ctx.ob('C31.pre', base_of(strip(a)) == ('item', res[hooks[j - 1]], C(0)), r.func, 'arguments',
                   'the next one gets {} instead of what the one before returned'.format(shows(a)[:80]))


def exactly(r, o, a, mine, more=frozenset()):
    keys, other = keys_of(a)
    return a[0] == 'obj' and not other and keys - more == ({'mine'} if mine else set()) and \
        all(v is not None and strip(v) == sym('a parameter') for k in keys - more for _, v in r.get(o, a, k))


def empty(a):
    return a[0] == 'obj' and a[3] is None and not a[4]


def built(ctx, r, o, hooks, res, made, mine):
    for _, e in made:
        src = [v for n, v in e.kw if n == '**'] + list(e.args)
        if not src:
            src = [('obj', 'dict', None, None, tuple(('set', C(n), v) for n, v in e.kw), ())]
        ok = len(src) == 1 and (base_of(strip(src[0])) == ('item', res[hooks[-1]], C(0)) if hooks else
                                exactly(r, o, strip(src[0]), mine, {'state'}))
        ctx.ob('C31.message', ok, r.func, 'arguments', 'the message is built from ' + (shows(src[0])[:80] if src else 'nothing'))


def left_in(t):
    """the calls that may have put something into a dictionary"""
    t = strip(t)
    if t[0] != 'obj':
        return [t[1]] if t[0] == 'item' and t[2] == C(1) else [t] if is_call(t) else []
    res = left_in(t[3]) if t[3] is not None else []
    for op in all_ops(t):
        if op[0] in ('upd', 'hav'):
            res += left_in(op[1])
    return res


def box(ctx, r, hooks, ev, res):
    """what argument hooks leave for message hooks goes from one to the next"""
    for j, h in enumerate(hooks):
        v = arg(ev[h][1], 'post_args')
        v = strip(v) if v is not None else C(None)
        ctx.ob('C31.passed', empty(v) if j == 0 else all(res[x] in left_in(v) for x in hooks[:j]), r.func, 'post_args',
               'a hook is to leave what is for message hooks in ' + show(v)[:80])


def after(ctx, r, o, names, ev, res, made):
    msg = None
    if names['post']:
        for j, h in enumerate(names['post']):
            i, e, f = ev[h]
            a = arg(e, 'request_args', 0)
            if j == 0:
                msg = strip(a or C(None))
            else:
                ctx.ob('C31.post', a is not None and base_of(strip(a)) == res[names['post'][j - 1]], r.func, 'message',
                       'the next one gets {} instead of what the one before returned'.format(shows(a)[:80]))
            ctx.ob('C31.post', strip(dict(e.kw).get('service', C(None))) == SELF, r.func, 'service', 'the hook is not told the service')
            left = [v for n, v in e.kw if n == '**']
            if names['pre']:
                ok = bool(left) and all(res[p] in left_in(left[0]) for p in names['pre'])
                ctx.ob('C31.passed', ok, r.func, 'post_args', 'message hooks get {}'.format(shows(left[0])[:80] if left else 'nothing'))
    else:
        for s, v in r.get(o, r.value(o), 'request'):
            msg = strip(v) if v is not None else C(None)
    whole = msg is not None and bool(made) and contains(msg, lambda x: x == strip(made[-1][1].res)) and \
        contains(msg, lambda x: x == at(SELF, 'msg_type'))
    ctx.ob('C31.message', whole, r.func, 'message', 'the message is {}'.format(shows(msg)[:80]))
    return res[names['post'][-1]] if names['post'] else msg


def headers(ctx, r, o, hooks, ev, res, msg, method):
    last = None
    auth = [(i, e) for i, e, _ in calls(o, 'construct') if is_call(strip(e.recv or C(0)), 'client_authn_factory')]
    for i, e in auth:
        a = arg(e, 'request', 0)
        ctx.ob('C31.authn', a is not None and same(a, msg), r.func, 'request', 'the authentication method sees ' + shows(a)[:80], e.line)
        which = strip(e.recv)[2][:1]
        ctx.ob('C31.authn', which == (sym('the method'),) or truthy(o.facts, r.eng, sym('the method')) is False, r.func, 'method', 'the method is ' + show(e.recv)[:60])
    if truthy(o.facts, r.eng, sym('the method')) is True:
        ctx.ob('C31.authn', len(auth) == 1, r.func, 'construct', 'authentication takes place {} times'.format(len(auth)))
    for j, h in enumerate(hooks):
        i, e, f = ev[h]
        kw = {k: strip(v) for k, v in e.kw}
        hd = kw.get('headers', C(None))
        if j == 0:
            if auth:
                given = fact(f, r.eng, 'in', C('headers'), strip(auth[-1][1].res))
                ok = base_of(hd) == it(strip(auth[-1][1].res), 'headers') or given is not True and empty(hd)
            else:
                ok = empty(hd)
            ctx.ob('C31.headers', ok, r.func, 'headers', 'the first gets the headers ' + show(hd)[:80], e.line)
            ctx.ob('C31.headers', all(x < i for x, _ in auth), r.func, 'order', 'headers are added before the client is authenticated', e.line)
        else:
            ctx.ob('C31.headers', base_of(hd) == res[hooks[j - 1]], r.func, 'headers',
                   'the next one gets {} instead of what the one before returned'.format(show(hd)[:80]), e.line)
        want = C(method) if method else at(SELF, 'http_method')
        ctx.ob('C31.headers', kw.get('http_method') == want, r.func, 'http_method', 'the method given is ' + shows(kw.get('http_method')), e.line)
        ctx.ob('C31.headers', kw.get('service_endpoint') == at(SELF, 'endpoint_name'), r.func, 'service_endpoint',
               'the endpoint given is ' + shows(kw.get('service_endpoint')), e.line)
        ctx.ob('C31.headers', same(kw.get('request', C(None)), msg), r.func, 'request', 'the message given is ' + shows(kw.get('request'))[:60], e.line)
        last = res[h]
    if last is not None:
        for s, v in r.get(o, r.value(o), 'headers'):
            if v is None:
                ctx.ob('C31.added', truthy(s.facts, r.eng, last) is False, r.func, 'headers', 'the headers are not sent')
            else:
                ctx.ob('C31.added', base_of(strip(v)) == last, r.func, 'headers', 'the headers sent are ' + shows(v)[:80])


def registered(ctx):
    """hooks that a configuration names, by a sample with some of each kind"""
    def named(*names):
        return lst(*[dct({'function': n} if n else {'other': 'z'}) for n in names])
    for pre, post in ((('f1', 'f2', None), ('g1', None, 'g2')), (('f1',), None), (None, ('g1', 'g2'))):
        conf = {'class': 'mod.Class'}
        for k, v in (('pre_functions', pre), ('post_functions', post)):
            if v is not None:
                conf[k] = named(*v)
        r = ctx.run('oidcrp.service.init_services', args={'service_definitions': dct({'x': dct(conf)})}, opaque={'importer'}, keep=lambda a: False)
        for o in r.returns if r else ():
            made = [base_of(strip(e.args[1])) for _, e, _ in events(o, 'setitem') if len(e.args) == 2 and is_call(base_of(strip(e.args[1])))]
            if not made:
                ctx.unclear('where services are registered')
                continue
            for a, want in (('pre_construct', pre), ('post_construct', post), ('construct_extra_headers', None)):
                for s, v in r.get_attr(o, made[-1], a):
                    v = strip(v) if v is not None else at(made[-1], a)
                    got = [loaded(x) for x in list_of(v, at(made[-1], a))]
                    ctx.ob('C31.registered', got == [None] + [n for n in want or () if n], r.func, a,
                           'hooks configured as {} become {}'.format([n for n in want or () if n], show(v)[:120]))


def list_of(t, own):
    """the members of a list; the list the service itself has stands for its members"""
    if t == own:
        return [own]
    if t[0] != 'obj':
        return [C('?')]
    res = list_of(strip(t[3]), own) if t[3] is not None else []
    for op in t[4]:
        if op[0] == 'ext':
            res += list_of(strip(op[1]), own) if strip(op[1])[0] == 'obj' or strip(op[1]) == own else [C('?')]
        elif op[0] == 'e':
            res.append(op[1])
        else:
            res.append(C('?'))
    return res


def loaded(t):
    """the name of an imported function; None for the hooks of the service itself"""
    t = strip(t)
    if is_call(t, 'importer'):
        n = callarg(t, 'name', 0)
        return n[2] if n is not None and n[0] == 'c' else '?'
    return None if t[0] == 'attr' else '?'
