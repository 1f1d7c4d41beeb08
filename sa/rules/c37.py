"""Tokens and user data are taken from where the response type says.

What is reported for a finished authentication is interpreted for every response type, with sample responses that carry more than was
asked for, and for every combination of user info service, access token and ID Token.
"""
from itertools import permutations, product

from ..q import *
from ..terms import C, contains, is_const, show

RPH = 'oidcrp.rp_handler.RPHandler'
SCHEMA = 'oidcmsg.oidc.OpenIDSchema'
TYPES = [('code',), ('token',), ('id_token',), ('code', 'token'), ('code', 'id_token'), ('id_token', 'token'), ('code', 'id_token', 'token')]
CLIENT = sym('the client')
KINDS = {CLIENT: 'oidcrp.oidc.RP'}
FRONT = dct({'state': 'S', 'code': 'the code', 'access_token': 'A', 'id_token': 'raw front', '__verified_id_token': 'I1'})


def check(ctx):
    ctx.rule('C37.access', 'the access token is from where the response type says', 20)
    ctx.rule('C37.id', 'the ID Token is a verified one from where the response type says', 20)
    ctx.rule('C37.asked', 'the token endpoint is asked, for this session, when the response type says so', 20)
    ctx.rule('C37.request', 'the response type is that of the request of the session', 20)
    ctx.rule('C37.stored', 'without a response it is the one recorded for the session', 2)
    ctx.rule('C37.info', 'the user data is the user info of the session or the claims of the ID Token', 6)
    ctx.rule('C37.claims', 'the claims of an ID Token are taken as they are', 2)
    ctx.rule('C37.reported', 'what is reported is what was found for the session', 6)
    ctx.rule('C37.mapped', 'subject and session id lead to the session', 6)
    for m in impls(ctx, RPH, 'get_access_and_id_token'):
        for types in TYPES:
            for order in {types, tuple(reversed(types))}:
                for more in (True, False):
                    for collect in (None, False, True):
                        tokens(ctx, m, order, more, collect)
            if 'id_token' in types:
                raw(ctx, m, types)
            if 'code' in types and 'token' not in types:
                nothing(ctx, m, types)
        stored(ctx, m)
    for m in impls(ctx, RPH, 'finalize'):
        for service, token, idt in product((True, False), repeat=3):
            for support in (None, 'backchannel', 'frontchannel'):
                finalize(ctx, m, service, token, idt, support)
    for m in impls(ctx, RPH, 'userinfo_in_id_token'):
        claims(ctx, m)


def tokens(ctx, m, types, more, collect):
    kinds = set(types)
    back = {'access_token': 'T', 'id_token': 'raw back'}
    if more:
        back['__verified_id_token'] = 'I2'
    r = ctx.run(m, types=KINDS, results={'get_item': dct({'response_type': lst(*types)}), 'get_tokens': dct(back)}, opaque={'get_tokens', 'get_item'},
                args={'authorization_response': FRONT, 'state': C('S'), 'client': CLIENT,
                      'behaviour_args': C(None) if collect is None else dct({'collect_tokens': C(collect)})})
    ask = 'code' in kinds and 'token' not in kinds or 'token' in kinds and collect
    access = 'T' if ask else 'A' if 'token' in kinds else None
    idt = 'I2' if ask and more else 'I1' if 'id_token' in kinds else None
    case = 'for {}{}{}'.format(' '.join(types), '' if collect is None else ', collect_tokens={}'.format(collect), '' if more else ', no ID Token from the token endpoint')
    for o in r.outs if r else ():
        if fact(o.facts, r.eng, 'none', CLIENT):
            continue
        if not ctx.ob('C37.access', o.kind == 'return', m, 'raise', 'there is no answer ' + case):
            continue
        for rid, key, want in (('C37.access', 'access_token', access), ('C37.id', 'id_token', idt)):
            for _, v in r.get(o, r.value(o), key):
                ctx.ob(rid, v is not None and strip(v) == C(want), m, key, 'the {} is {} {}'.format(key, shows(v), case))
        got = calls(o, 'get_tokens')
        ctx.ob('C37.asked', len(got) == (1 if ask else 0), m, 'get_tokens', 'the token endpoint is asked {} times {}'.format(len(got), case))
        for _, e, _ in got:
            ctx.ob('C37.asked', arg(e, 'state', 0) == C('S') and arg(e, 'client', 1) == CLIENT, m, 'get_tokens', 'the token endpoint is asked for another session ' + case, e.line)
        looked = calls(o, 'get_item')
        for _, e, _ in looked:
            ctx.ob('C37.request', arg(e, 'key', 2) == C('S') and arg(e, 'item_type', 1) == C('auth_request'), m, 'get_item', 'the request looked up is another one ' + case, e.line)
        ctx.ob('C37.request', bool(looked), m, 'get_item', 'the request of the session is not looked at ' + case)


def raw(ctx, m, types):
    """ID Tokens that have not been verified"""
    r = ctx.run(m, types=KINDS, results={'get_item': dct({'response_type': lst(*types)}), 'get_tokens': dct({'access_token': 'T', 'id_token': 'raw back'})},
                opaque={'get_tokens', 'get_item'}, args={'authorization_response': dct({'state': 'S', 'code': 'the code', 'access_token': 'A', 'id_token': 'raw front'}),
                                                         'state': C('S'), 'client': CLIENT})
    for o in r.returns if r else ():
        for _, v in r.get(o, r.value(o), 'id_token'):
            ctx.ob('C37.id', v is None or strip(v) == C(None), m, 'id_token', 'an ID Token that has not been verified is reported: {} for {}'.format(shows(v), ' '.join(types)))


def nothing(ctx, m, types):
    """a token endpoint that gives no access token"""
    r = ctx.run(m, types=KINDS, results={'get_item': dct({'response_type': lst(*types)}), 'get_tokens': dct({'id_token': 'raw back', '__verified_id_token': 'I2'})},
                opaque={'get_tokens', 'get_item'}, args={'authorization_response': FRONT, 'state': C('S'), 'client': CLIENT})
    for o in r.returns if r else ():
        for _, v in r.get(o, r.value(o), 'access_token'):
            ctx.ob('C37.access', v is None or strip(v) == C(None), m, 'access_token', 'the access token is {} though the token endpoint gave none for {}'.format(
                shows(v), ' '.join(types)))


def stored(ctx, m):
    r = ctx.run(m, types=KINDS, opaque={'get_tokens', 'get_item'}, args={'authorization_response': C(None), 'state': C('S'), 'client': CLIENT, 'behaviour_args': C(None)})
    for o in r.returns if r else ():
        got = [e for _, e, _ in calls(o, 'get_item') if arg(e, 'item_type', 1) == C('auth_response')]
        ctx.ob('C37.stored', bool(got) and all(arg(e, 'key', 2) == C('S') for e in got), m, 'auth_response', 'the response recorded for the session is not used')
    r = ctx.run(m, types=KINDS, opaque={'get_tokens', 'get_item'}, args={'authorization_response': FRONT, 'state': C(''), 'client': CLIENT, 'behaviour_args': C(None)})
    for o in r.returns if r else ():
        for _, e, _ in calls(o, 'get_item', 'get_tokens'):
            k = arg(e, 'state', 0) if e.name == 'get_tokens' else arg(e, 'key', 2)
            ctx.ob('C37.stored', k == C('S'), m, e.name, 'without a state the session is not that of the response', e.line)


def finalize(ctx, m, service, token, idt, support):
    info = dct({'sub': 'info sub', 'name': 'info name'})
    verified = dct({'sub': 'token sub', 'sid': 'the sid', 'iss': 'iss'})
    inside = dct({'sub': 'token sub', 'name': 'token name'})
    meta = dct({support + '_logout_session_supported': C(True)} if support else {})
    r = ctx.run(m, types=KINDS, opaque={'finalize_auth', 'get_access_and_id_token', 'get_user_info', 'userinfo_in_id_token', 'store_sub2state', 'store_sid2state'},
                results={'finalize_auth': dct({'state': 'S', 'session_state': 'the session state', 'code': 'x', 'access_token': 'front', 'id_token': 'raw front',
                                               '__verified_id_token': dct({'sub': 'front sub', 'sid': 'front sid'})}), 'get_user_info': info, 'userinfo_in_id_token': inside,
                         'get_access_and_id_token': dct({'access_token': C('A') if token else C(None), 'id_token': verified if idt else C(None)})},
                given={('attr', SELF, 'issuer2rp'): dct({'the issuer': CLIENT}), ('attr', CLIENT, '_service'): dct({'userinfo': C('the service')} if service else {}),
                       ('attr', at(CLIENT, '_service_context'), 'provider_info'): meta},
                args={'issuer': C('the issuer')})
    case = '{} user info service, {} access token, {} ID Token'.format(*('with' if x else 'without' for x in (service, token, idt)))
    for o in r.outs if r else ():
        if not ctx.ob('C37.reported', o.kind == 'return', m, 'raise', 'an authentication is not finished ' + case):
            continue
        asked = calls(o, 'get_user_info')
        ctx.ob('C37.info', len(asked) == (service and token), m, 'get_user_info', 'user info is asked for {} times {}'.format(len(asked), case))
        for _, e, _ in asked:
            ctx.ob('C37.info', arg(e, 'state', 0) == C('S') and arg(e, 'client', 1, CLIENT) == CLIENT and arg(e, 'access_token', 2, C('A')) == C('A'), m, 'get_user_info',
                   'the user info asked for is of another session', e.line)
        for _, v in r.get(o, r.value(o), 'userinfo'):
            if service and token:
                want = {'sub': 'info sub', 'name': 'info name'}
            else:
                want = {'sub': 'token sub', 'name': 'token name'} if idt else {}
            if not ctx.ob('C37.info', v is not None, m, 'userinfo', 'no user data is reported ' + case):
                continue
            for k in ('sub', 'name'):
                for _, x in r.get(o, v, k):
                    ctx.ob('C37.info', x is None if k not in want else x is not None and strip(x) == C(want[k]), m, 'userinfo',
                           'the {} reported is {} {}'.format(k, shows(x), case))
        for k, want in (('state', C('S')), ('token', C('A') if token else C(None)), ('session_state', C('the session state'))):
            for _, v in r.get(o, r.value(o), k):
                ctx.ob('C37.reported', v is not None and strip(v) == want, m, k, 'the {} reported is {} {}'.format(k, shows(v), case))
        for _, v in r.get(o, r.value(o), 'id_token'):
            if idt:
                for _, x in r.get(o, v, 'sid') if v is not None else [(None, None)]:
                    ctx.ob('C37.reported', x is not None and strip(x) == C('the sid'), m, 'id_token', 'the ID Token reported is {} {}'.format(shows(v), case))
            else:
                ctx.ob('C37.reported', v is None or strip(v) == C(None), m, 'id_token', 'the ID Token reported is {} {}'.format(shows(v), case))
        subs = [e for _, e, _ in calls(o, 'store_sub2state')]
        who = 'token sub' if idt else 'info sub' if service and token else None
        ctx.ob('C37.mapped', bool(subs) == (who is not None), m, 'store_sub2state', 'the subject is {} {}'.format('mapped' if subs else 'not mapped', case))
        for e in subs:
            ctx.ob('C37.mapped', (arg(e, 'sub', 0), arg(e, 'state', 1)) == (C(who), C('S')), m, 'store_sub2state', 'the subject does not lead to the session ' + case, e.line)
        sids = [e for _, e, _ in calls(o, 'store_sid2state')]
        if support and idt:
            ctx.ob('C37.mapped', bool(sids), m, 'store_sid2state', 'the session id is not mapped')
        for e in sids:
            ctx.ob('C37.mapped', idt and (arg(e, 'sid', 0), arg(e, 'state', 1)) == (C('the sid'), C('S')), m, 'store_sid2state', 'the session id does not lead to the session', e.line)
    # the answer to an error
    r = ctx.run(m, types=KINDS, opaque={'finalize_auth', 'get_access_and_id_token', 'get_user_info', 'store_sub2state', 'store_sid2state'},
                results={'finalize_auth': dct({'state': 'S', 'error': 'the error'})}, given={('attr', SELF, 'issuer2rp'): dct({'the issuer': CLIENT})}, args={'issuer': C('the issuer')})
    for o in r.returns if r else ():
        for k, want in (('state', 'S'), ('error', 'the error')):
            for _, v in r.get(o, r.value(o), k):
                ctx.ob('C37.reported', v is not None and strip(v) == C(want), m, k, 'the {} of an error answer is {}'.format(k, shows(v)))
        for k in ('token', 'id_token', 'userinfo'):
            for _, v in r.get(o, r.value(o), k):
                ctx.ob('C37.reported', v is None or strip(v) == C(None), m, k, 'an error is reported with ' + k)
        ctx.ob('C37.mapped', not calls(o, 'store_sub2state', 'store_sid2state', 'get_access_and_id_token', 'get_user_info'), m, 'error', 'the flow goes on after an error')


def claims(ctx, m):
    f = ctx.prog.func(m)
    par = params(f)
    x = sym('the ID Token')
    r = ctx.run(m, args={par[0]: x}, types={x: 'oidcmsg.oidc.IDToken'}, given={('attr', ('cls', SCHEMA), 'c_param'): c_param({'sub': (False, True), 'name': (False, False)})})
    for o in r.returns if r else ():
        v = r.value(o)
        for k in ('sub', 'name'):
            there = known_in(r, o.facts, k, x)
            got = [strip(g) if g is not None else C(None) for _, g in r.get(o, v, k)]
            rest = [g for g in got if not contains(g, lambda t: callname(t) == 'extra')]
            if there is False:
                ctx.ob('C37.claims', all(g == C(None) for g in rest), m, k, 'a claim that the ID Token does not have is {}'.format([show(g) for g in rest]))
            elif truthy(o.facts, r.eng, it(x, k)) is not False:
                ctx.ob('C37.claims', it(x, k) in rest and not [g for g in rest if g not in (it(x, k), C(None))], m, k,
                       'the claim {} of the ID Token is {}'.format(k, [show(g) for g in got]))
        if contains(strip(v), lambda t: callname(t) in ('items', 'to_dict', 'keys') or t[0] == 'view'):
            ctx.unclear('which claims are taken from an ID Token')
        else:
            ctx.ob('C37.claims', contains(strip(v), lambda t: callname(t) == 'extra' and mentions(t, x)), m, 'extra', 'claims outside the standard are left out')


def params(f):
    a = f.node.args
    names = [p.arg for p in a.posonlyargs + a.args]
    return names if 'staticmethod' in f.decs else names[1:]
