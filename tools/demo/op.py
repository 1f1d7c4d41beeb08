"""A provider in memory and a relying party that talks to it. Nothing leaves the process."""
import copy
import json
import os
import sys
import time
from urllib.parse import parse_qs
from urllib.parse import urlsplit

sys.path.insert(0, os.path.join(os.getcwd(), 'src'))

from cryptojwt.jwt import JWT  # noqa: E402
from cryptojwt.key_jar import build_keyjar  # noqa: E402
from oidcrp.rp_handler import RPHandler  # noqa: E402

KEYDEFS = [{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}]
ISS = 'https://op.example.org'
ISS2 = 'https://op2.example.org'
BASE = 'https://rp.example.com/rp'


class Answer:
    def __init__(self, status, body, ctype='application/json', headers=None):
        self.status_code = status
        self.text = body if isinstance(body, str) else json.dumps(body)
        self.headers = {'content-type': ctype}
        self.headers.update(headers or {})
        self.url = ''
        self.reason = str(status)
        self.is_error = status >= 400
        self.ok = not self.is_error

    def json(self):
        return json.loads(self.text)


class OP:
    def __init__(self, issuer=ISS):
        self.issuer = issuer
        self.keyjar = build_keyjar(KEYDEFS, issuer_id=issuer)
        self.answers = {}
        self.requests = []

    def id_token(self, client_id, alg='RS256', **claims):
        body = {'sub': 'alice', 'exp': int(time.time()) + 600, 'iat': int(time.time())}
        body.update(claims)
        body = {k: v for k, v in body.items() if v is not None}
        return JWT(self.keyjar, iss=self.issuer, sign_alg=alg, lifetime=600).pack(
            payload=body, recv=client_id, aud=[client_id], issuer_id=self.issuer)

    def __call__(self, url, method='GET', **kwargs):
        self.requests.append((url, method, kwargs))
        path = url.split('?')[0]
        ans = self.answers[path]
        if callable(ans):
            ans = ans(url, method, **kwargs)
        return ans if isinstance(ans, Answer) else Answer(200, ans)


SERVICES = {
    'authorization': {'class': 'oidcrp.oidc.authorization.Authorization'},
    'access_token': {'class': 'oidcrp.oidc.access_token.AccessToken'},
    'refresh_access_token': {'class': 'oidcrp.oidc.refresh_access_token.RefreshAccessToken'},
    'userinfo': {'class': 'oidcrp.oidc.userinfo.UserInfo'},
}


def config(issuer=ISS, client_id='the_client', secret='a-secret-that-is-long-enough-for-hs256',
           response_types=('code',), services=None, **extra):
    conf = {
        'issuer': issuer, 'client_id': client_id, 'client_secret': secret,
        'redirect_uris': [BASE + '/cb'],
        'client_preferences': {'response_types': list(response_types)},
        'behaviour': {'response_types': list(response_types), 'scope': ['openid', 'profile'],
                      'token_endpoint_auth_method': 'client_secret_basic'},
        'provider_info': {'issuer': issuer,
                          'authorization_endpoint': issuer + '/authorize',
                          'token_endpoint': issuer + '/token',
                          'userinfo_endpoint': issuer + '/userinfo',
                          'end_session_endpoint': issuer + '/logout'},
        'services': copy.deepcopy(services or SERVICES)}
    for k, v in extra.items():
        if isinstance(v, dict) and isinstance(conf.get(k), dict) and k in ('behaviour', 'provider_info', 'services'):
            conf[k].update(v)
        else:
            conf[k] = v
    return conf


def handler(configs, **kwargs):
    return RPHandler(BASE, client_configs=configs, keyjar=build_keyjar(KEYDEFS), module_dirs=['oidc'], **kwargs)


def start(rph, op, name=None, req_args=None):
    """-> client, state, request sent"""
    cl = rph.client_setup(name or op.issuer)
    cl.http = op
    ctx = cl.client_get('service_context')
    ctx.keyjar.import_jwks(op.keyjar.export_jwks(issuer_id=op.issuer), op.issuer)
    res = rph.init_authorization(cl, req_args=req_args)
    req = {k: v[0] for k, v in parse_qs(urlsplit(res['url']).query).items()}
    return cl, res['state'], req


def fails(func, *args, **kwargs):
    """the exception a call ends with, or None"""
    try:
        func(*args, **kwargs)
    except Exception as err:
        return err
    return None


def check(cond, what):
    if not cond:
        print('FAIL:', what)
        sys.exit(1)
    print('ok:', what)
