"""An authorization response only counts for the issuer its session started with."""
from ..messages import kinds
from ..q import *
from ..terms import C, show

RPH = 'oidcrp.rp_handler.RPHandler.'
STI = 'oidcrp.state_interface.StateInterface.'


def check(ctx):
    ctx.rule('C01.kind', 'an authorization response is verified as one', 1)
    kinds(ctx, 'C01.kind', only=('Authorization',))
    finalize_auth(ctx)
    lookup(ctx)
    store(ctx)
    callers(ctx)


def finalize_auth(ctx):
    ctx.rule('C01.accept', 'finalize_auth: a returned response that is not an error names a session whose stored issuer '
             'is known to equal the issuer given')
    ctx.rule('C01.record', 'finalize_auth: anything recorded is recorded under the state of the response, after the issuer '
             'check')
    ctx.rule('C01.stored', 'finalize_auth: an accepted response is stored as the authorization response of its session')
    r = ctx.run(RPH + 'finalize_auth', transparent={'get_iss'})
    if r is None:
        return
    eng = r.eng
    client, issuer = ('sym', 'client'), ('sym', 'issuer')

    def checked(facts, state):
        for atom, pol in facts.items():
            if atom[0] == 'eq' and pol:
                for a, b in ((atom[1], atom[2]), (atom[2], atom[1])):
                    s = sess(a)
                    if s and b == issuer and s[2] == 'iss' and strip(s[1]) == state and s[0] == store_of(client):
                        return True
        return False

    for o in r.returns:
        resp = strip(o.value)
        parsed = [e for _, e, _ in calls(o, 'parse_response') if is_service(e.recv, 'authorization', client)
                  and strip(e.res) == resp]
        state = ('item', resp, C('state'))
        if is_error(o.facts, eng, resp) is True:
            ctx.ob('C01.record', not effects(o), r.func, 'error response', 'an error response changes stored data')
            continue
        ctx.ob('C01.accept', bool(parsed), r.func, 'parse_response',
               'the value returned is not the parsed authorization response: ' + show(o.value))
        ctx.ob('C01.accept', checked(o.facts, state), r.func, 'issuer check',
               'a response is returned without its session being known to belong to the issuer')
        st = [e for _, e, _ in calls(o, 'store_item') if strip(arg(e, 'item', 0) or ()) == resp
              and arg(e, 'item_type', 1) == C('auth_response') and strip(arg(e, 'key', 2) or ()) == state
              and e.recv == store_of(client)]
        up = [e for _, e, _ in calls(o, 'update_service_context') if is_service(e.recv, 'authorization', client)
              and strip(arg(e, 'resp', 0) or ()) == resp and strip(arg(e, 'key', 1) or ()) == state]
        ctx.ob('C01.stored', bool(st) and bool(up), r.func, 'store',
               'the accepted response is not stored under its state')
    for o in r.outs:
        for _, e, f in effects(o):
            if e.kind != 'call':
                continue
            resp = strip(arg(e, 'resp', 0) if e.name == 'update_service_context' else arg(e, 'item', 0) or ())
            state = ('item', resp, C('state'))
            key = strip(arg(e, 'key', 1 if e.name == 'update_service_context' else 2) or ())
            if e.name not in ('update_service_context', 'store_item'):
                continue
            ctx.ob('C01.record', key == state, r.func, e.name + ' key', 'recorded under ' + show(key), line=e.line)
            ctx.ob('C01.record', checked(f, state), r.func, e.name, 'recorded before the issuer was compared', line=e.line)


def lookup(ctx):
    ctx.rule('C01.lookup', 'the client found for a session key is the one registered for the issuer stored under that key')
    r = ctx.run(RPH + 'get_client_from_session_key', transparent={'get_iss'})
    if r is None:
        return
    rps = ('attr', ('sym', 'self'), 'issuer2rp')

    def stored_iss(t):
        s = sess(t)
        return bool(s and s[2] == 'iss' and strip(s[1]) == ('sym', 'state') and is_store(s[0])
                    and contains(s[0], lambda x: x == rps))
    for o in r.returns:
        v = strip(o.value)
        ok = False
        if v[0] == 'item' and v[1] == rps:
            ok = v[2] == C(None) or stored_iss(v[2])
            if not ok:
                # the client whose own store holds the session, known to be registered under the stored issuer
                ok = any(a[0] == 'eq' and p and v[2] in a[1:] and any(stored_iss(x) for x in a[1:])
                         for a, p in o.facts.items())
        ctx.ob('C01.lookup', ok, r.func, 'client', 'yields ' + show(v))
    r = ctx.run(RPH + 'state2issuer', transparent={'get_iss'})
    if r is None:
        return
    for o in r.returns:
        v = strip(o.value)
        ctx.ob('C01.lookup', v == C(None) or stored_iss(v), r.func, 'issuer', 'yields ' + show(v))


def store(ctx):
    ctx.rule('C01.iss', 'a session is stored with the issuer it was created for and that is what is read back, or reading fails')
    r = ctx.run(STI + 'create_state')
    if r:
        for o in r.returns:
            w = [e for _, e, _ in events(o, 'setitem') if strip(e.recv) == ('attr', ('sym', 'self'), '_db')]
            ok = False
            for e in w:
                st = [x for x in walk(e.args[1]) if x[0] == 'obj' and x[2] and x[2][0] == 'cls']
                if e.args[0] == o.value and any(values_of(x, 'iss') == ('sym', 'iss') for x in st):
                    ok = True
            ctx.ob('C01.iss', ok and len(w) == 1, r.func, 'record', 'the new session is not stored with its issuer')
    r = ctx.run(STI + 'get_iss')
    if r:
        for o in r.returns:
            s = sess(o.value)
            ctx.ob('C01.iss', bool(s) and s[2] == 'iss' and s[1] == ('sym', 'key') and s[0] == ('sym', 'self'), r.func,
                   'get_iss', 'returns ' + show(o.value))
    r = ctx.run(STI + 'get_state')
    if r:
        for o in r.returns:
            rec = ('item', ('attr', ('sym', 'self'), '_db'), ('sym', 'key'))
            ctx.ob('C01.iss', is_call(o.value, 'from_json') and strip(callarg(o.value, 'txt', 0)) == rec or
                   mentions(strip(o.value), rec), r.func, 'get_state', 'returns ' + show(o.value))
            ctx.ob('C01.iss', r.eng.decide(o.state, ('T', rec)) is True, r.func, 'get_state',
                   'an absent record is returned as a session')


def callers(ctx):
    ctx.rule('C01.caller', 'finalize hands finalize_auth the client registered for the issuer it was called with')
    r = ctx.run(RPH + 'finalize')
    if r is None:
        return
    for o in r.outs:
        for _, e, _ in calls(o, 'finalize_auth'):
            iss = strip(arg(e, 'issuer', 1))
            cl = strip(arg(e, 'client', 0))
            ctx.ob('C01.caller', iss == ('sym', 'issuer') and cl == ('item', ('attr', ('sym', 'self'), 'issuer2rp'), iss)
                   and arg(e, 'response', 2) == ('sym', 'response'), r.func, 'finalize_auth',
                   'called with client {} and issuer {}'.format(show(cl), show(iss)), line=e.line)
