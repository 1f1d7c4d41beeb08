"""The kinds of messages that services send and receive: what they demand of a message is what is checked of it."""
import ast

from .q import *
from .terms import C, show

RESPONSES = {
    'oidcrp.oidc.authorization.Authorization': 'oidcmsg.oidc.AuthorizationResponse',
    'oidcrp.oidc.access_token.AccessToken': 'oidcmsg.oidc.AccessTokenResponse',
    'oidcrp.oidc.refresh_access_token.RefreshAccessToken': 'oidcmsg.oidc.AccessTokenResponse',
    'oidcrp.oidc.userinfo.UserInfo': 'oidcmsg.oidc.OpenIDSchema',
    'oidcrp.oidc.provider_info_discovery.ProviderInfoDiscovery': 'oidcmsg.oidc.ProviderConfigurationResponse',
    'oidcrp.oidc.registration.Registration': 'oidcmsg.oidc.RegistrationResponse',
    'oidcrp.oidc.read_registration.RegistrationRead': 'oidcmsg.oidc.RegistrationResponse',
    'oidcrp.oidc.webfinger.WebFinger': 'oidcmsg.oidc.JRD',
    'oidcrp.oauth2.authorization.Authorization': 'oidcmsg.oauth2.AuthorizationResponse',
    'oidcrp.oauth2.access_token.AccessToken': 'oidcmsg.oauth2.AccessTokenResponse',
    'oidcrp.oauth2.refresh_access_token.RefreshAccessToken': 'oidcmsg.oauth2.AccessTokenResponse',
    'oidcrp.oauth2.client_credentials.cc_access_token.CCAccessToken': 'oidcmsg.oauth2.AccessTokenResponse',
    'oidcrp.oauth2.client_credentials.cc_refresh_access_token.CCRefreshAccessToken': 'oidcmsg.oauth2.AccessTokenResponse',
    'oidcrp.oauth2.provider_info_discovery.ProviderInfoDiscovery': 'oidcmsg.oauth2.ASConfigurationResponse',
}
REQUESTS = {
    'oidcrp.oidc.authorization.Authorization': 'oidcmsg.oidc.AuthorizationRequest',
    'oidcrp.oidc.access_token.AccessToken': 'oidcmsg.oidc.AccessTokenRequest',
    'oidcrp.oidc.refresh_access_token.RefreshAccessToken': 'oidcmsg.oidc.RefreshAccessTokenRequest',
    'oidcrp.oidc.registration.Registration': 'oidcmsg.oidc.RegistrationRequest',
    'oidcrp.oidc.end_session.EndSession': 'oidcmsg.oidc.session.EndSessionRequest',
    'oidcrp.oidc.check_session.CheckSession': 'oidcmsg.oidc.session.CheckSessionRequest',
    'oidcrp.oidc.check_id.CheckID': 'oidcmsg.oidc.session.CheckIDRequest',
    'oidcrp.oauth2.authorization.Authorization': 'oidcmsg.oauth2.AuthorizationRequest',
    'oidcrp.oauth2.access_token.AccessToken': 'oidcmsg.oauth2.AccessTokenRequest',
    'oidcrp.oauth2.refresh_access_token.RefreshAccessToken': 'oidcmsg.oauth2.RefreshAccessTokenRequest',
    'oidcrp.oauth2.client_credentials.cc_access_token.CCAccessToken': 'oidcmsg.oauth2.CCAccessTokenRequest',
    'oidcrp.oauth2.client_credentials.cc_refresh_access_token.CCRefreshAccessToken': 'oidcmsg.oauth2.RefreshAccessTokenRequest',
}
WHAT = {'response_cls': ('responses', RESPONSES), 'msg_type': ('requests', REQUESTS)}


def kinds(ctx, rid, attr='response_cls', only=()):
    """the message class of every service is one that demands no less than the one of the protocol"""
    what, table = WHAT[attr]
    for service, least in table.items():
        if only and not any(service.endswith(x) for x in only):
            continue
        top = ctx.prog.cls(service)
        if top is None:
            ctx.unclear('{} is not there'.format(service))
            continue
        for c in [top] + [x for x in ctx.prog.subclasses(service) if x is not top]:
            # what a subclass has a better entry for is judged by that
            if not c.module.is_repo or c.module.name.startswith('oidcrp.provider') or c is not top and any(
                    x in table and x != service for x in (y.dotted for y in ctx.prog.mro(c)) if ctx.prog.is_subclass(ctx.prog.cls(x), service)):
                continue
            ca = ctx.prog.class_attr(c, attr)
            r = ca and ctx.prog.resolve_expr(ca[0].module, ca[1])
            if not r or r[0] != 'cls':
                if r is not None or ca is None:
                    ctx.ob(rid, False, c.dotted, attr, 'the {} of {} are of no kind that is known'.format(what, c.dotted))
                else:
                    ctx.unclear('{} of {} is not known'.format(attr, c.dotted))
                continue
            ctx.ob(rid, ctx.prog.is_subclass(r[1], least), c.dotted, attr, 'the {} are of {} which is no {}'.format(what, r[1].dotted, least))
            for k in ctx.prog.mro(r[1]):
                if k.module.is_repo and 'verify' in k.methods:
                    faithful(ctx, rid, k.dotted + '.verify')
                if k.module.is_repo and 'c_param' in k.attrs:
                    demands(ctx, rid, k, least)


def faithful(ctx, rid, name):
    """a verification of our own is made in addition to that of the library"""
    r = ctx.run(name)
    for o in r.returns if r else ():
        done = calls(o, 'verify')
        ctx.ob(rid, bool(done), name, 'verify', 'verification of the library is left out')
        for _, e, _ in done:
            ctx.ob(rid, any(n == '**' and strip(v) == KW for n, v in e.kw), name, 'arguments', 'verification of the library is made with other arguments', e.line)
        touched = [e for e, _ in o.trace if e.recv is not None and base_of(strip(e.recv)) == KW and e.name in ('pop', 'update', 'clear', 'popitem', '__setitem__', '__delitem__') or
                   e.kind in ('setitem', 'delitem') and base_of(strip(e.recv)) == KW]
        ctx.ob(rid, not touched, name, 'arguments', 'the arguments of the verification are changed')


def demands(ctx, rid, k, least):
    """parameters that are required stay so where the table of parameters is written anew"""
    expr = k.attrs['c_param']
    base = ctx.prog.cls(least)
    have = base and ctx.prog.class_attr(base, 'c_param')
    if not isinstance(expr, ast.Dict) or not have or not isinstance(have[1], ast.Dict):
        return
    required = {x.value for x, v in zip(have[1].keys, have[1].values) if isinstance(x, ast.Constant) and 'REQUIRED' in ast.unparse(v)}
    still = {x.value for x, v in zip(expr.keys, expr.values) if isinstance(x, ast.Constant) and 'REQUIRED' in ast.unparse(v)}
    if any(x is None for x in expr.keys):
        return
    ctx.ob(rid, required <= still, k.dotted, 'c_param', '{} not required any more'.format(', '.join(sorted(required - still))))


O2, OI, CC = 'oidcrp.oauth2.', 'oidcrp.oidc.', 'oidcrp.oauth2.client_credentials.'
AUTHZ, TOKEN, REFRESH = 'authorization.Authorization', 'access_token.AccessToken', 'refresh_access_token.RefreshAccessToken'
CCT, CCR = CC + 'cc_access_token.CCAccessToken', CC + 'cc_refresh_access_token.CCRefreshAccessToken'
TOKENS = (O2 + TOKEN, OI + TOKEN, O2 + REFRESH, OI + REFRESH, CCT, CCR)
REG, READ, FINGER, INFO, USER, END = (OI + x for x in ('registration.Registration', 'read_registration.RegistrationRead', 'webfinger.WebFinger',
                                                      'provider_info_discovery.ProviderInfoDiscovery', 'userinfo.UserInfo', 'end_session.EndSession'))
INFO2 = O2 + 'provider_info_discovery.ProviderInfoDiscovery'
# how a service talks to the provider
WAYS = {
    'endpoint_name': {**{x: ('token_endpoint',) for x in TOKENS}, O2 + AUTHZ: ('authorization_endpoint',), OI + AUTHZ: ('authorization_endpoint',), REG: ('registration_endpoint',),
                      USER: ('userinfo_endpoint',), END: ('end_session_endpoint',), OI + 'check_session.CheckSession': ('',), OI + 'check_id.CheckID': ('',)},
    'http_method': {**{x: ('POST',) for x in TOKENS + (REG,)}, **{x: ('GET',) for x in (READ, FINGER, INFO, INFO2)}, USER: ('GET', 'POST'), END: ('GET', 'POST')},
    'request_body_type': {**{x: ('urlencoded',) for x in TOKENS}, REG: ('json',)},
    'response_body_type': {**{x: ('json',) for x in TOKENS + (REG, READ, FINGER, INFO, INFO2, USER)}, O2 + AUTHZ: ('urlencoded',), OI + AUTHZ: ('urlencoded',)},
    'default_authn_method': {**{x: ('client_secret_basic', 'client_secret_post', 'client_secret_jwt', 'private_key_jwt', 'bearer_header') for x in TOKENS},
                             **{x: ('client_secret_basic',) for x in (O2 + TOKEN, OI + TOKEN, CCT)}, USER: ('bearer_header', 'bearer_body'),
                             **{x: ('',) for x in (O2 + AUTHZ, OI + AUTHZ, FINGER, INFO, INFO2, REG, END)}},
}


def ways(ctx, rid, attrs, only=()):
    """every service talks to the endpoint it is for in the way that the endpoint understands"""
    for attr in attrs:
        for service, allowed in WAYS[attr].items():
            if only and not any(service.endswith(x) for x in only):
                continue
            c = ctx.prog.cls(service)
            ca = c and ctx.prog.class_attr(c, attr)
            if not ca:
                ctx.unclear('{} of {} is not known'.format(attr, service))
                continue
            v = class_const(ctx, c, attr)
            if v is None:
                ctx.unclear('{} of {} is not known'.format(attr, service))
                continue
            ctx.ob(rid, v in allowed, service, attr, '{} is {!r}'.format(attr, v))
