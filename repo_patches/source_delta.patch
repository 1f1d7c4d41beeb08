From 56e0aa7c1872ac67124714f7838aea2bd41a8efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:20 +0000
Subject: [PATCH 01/53] fix: draw state, nonce and code verifier from the
 system CSPRNG

---
 src/oidcrp/util.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 17e0d51..ba4c975 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -6,6 +6,7 @@ import io
 import json
 import logging
 import os
+from random import SystemRandom
 import ssl
 import string
 import sys
@@ -18,11 +19,6 @@ from oidcmsg.exception import UnSupported
 from oidcmsg.oauth2 import is_error_message
 import yaml
 
-# Since SystemRandom is not available on all systems
-try:
-    import SystemRandom as rnd
-except ImportError:
-    import random as rnd
 
 from oidcrp.defaults import BASECHR
 from oidcrp.exception import ConfigurationError
@@ -38,6 +34,9 @@ logger = logging.getLogger(__name__)
 
 __author__ = 'roland'
 
+# state, nonce, code_verifier, ... has to be unpredictable
+rnd = SystemRandom()
+
 DEFAULT_POST_CONTENT_TYPE = URL_ENCODED
 
 PAIRS = {
-- 
2.43.0


From 8f7e0973108ea03cf844f5fcafd2020855f4b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:48 +0000
Subject: [PATCH 02/53] fix: a response whose verification returns False must
 not be accepted

---
 src/oidcrp/service.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index c4726a5..b45a42b 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -17,6 +17,7 @@ from oidcrp import util
 from oidcrp.client_auth import factory as ca_factory
 from oidcrp.configure import Configuration
 from oidcrp.exception import ResponseError
+from oidcrp.exception import VerificationError
 from oidcrp.util import JOSE_ENCODED
 from oidcrp.util import JSON_ENCODED
 from oidcrp.util import URL_ENCODED
@@ -563,7 +564,9 @@ class Service(ImpExp):
             LOGGER.debug("Verify response with %s", vargs)
             try:
                 # verify the message. If something is wrong an exception is thrown
-                resp.verify(**vargs)
+                # or False is returned
+                if resp.verify(**vargs) is False:
+                    raise VerificationError('Response could not be verified')
             except Exception as err:
                 LOGGER.error(
                     'Got exception while verifying response: %s', err)
-- 
2.43.0


From ecdac2392196e5dd722bf5d490a2ce5c2865ef60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 03/53] fix: get_user_info must use the access token it found
 in the session

---
 src/oidcrp/rp_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 6d42ced..49118bc 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -594,6 +594,7 @@ class RPHandler(object):
             _arg = client.client_get("service_context").state.multiple_extend_request_args(
                 {}, state, ['access_token'],
                 ['auth_response', 'token_response', 'refresh_token_response'])
+            access_token = _arg['access_token']
 
         request_args = {'access_token': access_token}
 
-- 
2.43.0


From 5ea2ffc0c308975d8a54ac3c0cbff42e6d9445f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:11 +0000
Subject: [PATCH 04/53] fix: removing a session must remove all of its mappings
 and nothing else

---
 src/oidcrp/state_interface.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index bfc7100..a17ac17 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -249,10 +249,12 @@ class StateInterface(ImpExp):
             _val = None
 
         if _val is None:
-            refs = {xtyp: value}
+            refs = {xtyp: [value]}
         else:
             refs = json.loads(_val)
-            refs[xtyp] = value
+            _values = refs.setdefault(xtyp, [])
+            if value not in _values:
+                _values.append(value)
         self._db["ref{}ref".format(state)] = json.dumps(refs)
 
     def get_state_by_x(self, value, xtyp):
@@ -382,7 +384,13 @@ class StateInterface(ImpExp):
         :param state: Key to the state
         """
         del self._db[state]
-        refs = json.loads(self._db.get("ref{}ref".format(state)))
-        if refs:
-            for xtyp, _val in refs.items():
-                del self._db[KEY_PATTERN[xtyp].format(_val)]
+        _ref_key = "ref{}ref".format(state)
+        _refs = self._db.get(_ref_key)
+        if _refs:
+            for xtyp, _vals in json.loads(_refs).items():
+                for _val in _vals:
+                    _key = KEY_PATTERN[xtyp].format(_val)
+                    # Some other session may have taken over the mapping
+                    if self._db.get(_key) == state:
+                        del self._db[_key]
+            del self._db[_ref_key]
-- 
2.43.0


From 4924ee54f90bb20fde75d02c2d2175dbb642e051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:45 +0000
Subject: [PATCH 05/53] fix: an HTTP 4xx response must never be treated as a
 successful response

---
 src/oidcrp/oauth2/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 2ee8fa3..79a3de0 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -260,6 +260,11 @@ class Client(Entity):
             except JSONDecodeError:  # So it's not JSON assume text then
                 err_resp = {'error': reqresp.text}
 
+            if 'error' not in err_resp:
+                # Whatever it is, it can not be regarded as a successful response
+                raise OidcServiceError("HTTP ERROR: %s [%s] on %s" % (
+                    reqresp.text, reqresp.status_code, reqresp.url))
+
             err_resp['status_code'] = reqresp.status_code
             return err_resp
         else:
-- 
2.43.0


From 7b347756603e317ccb16347f90ed25cdc67522cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 06/53] fix: a redirect is not a service response and must not
 be stored as one

---
 src/oidcrp/oauth2/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 79a3de0..f566c9c 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -176,7 +176,8 @@ class Client(Entity):
             response = self.get_response(service, url, method, body, response_body_type, headers,
                                          **kwargs)
 
-        if 'error' in response:
+        if 'error' in response or 'http_response' in response:
+            # An error message or a redirect, so nothing to remember
             pass
         else:
             try:
-- 
2.43.0


From 5428028eb8485c91be20a36fbedb7f7153684f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 07/53] fix: report a missing provider_info or end_session
 service

---
 src/oidcrp/oauth2/__init__.py | 22 ++++++++++------------
 src/oidcrp/rp_handler.py      |  5 ++---
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index f566c9c..0e7e6d8 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -282,18 +282,16 @@ def dynamic_provider_info_discovery(client: Client, behaviour_args: Optional[dic
     :param behaviour_args:
     :param client: A :py:class:`oidcrp.oidc.Client` instance
     """
-    try:
-        client.get_service('provider_info')
-    except KeyError:
+    if client.get_service('provider_info') is None:
         raise ConfigurationError(
             'Can not do dynamic provider info discovery')
-    else:
-        _context = client.client_get("service_context")
-        try:
-            _context.set('issuer', _context.config['srv_discovery_url'])
-        except KeyError:
-            pass
 
-        response = client.do_request('provider_info', behaviour_args=behaviour_args)
-        if is_error_message(response):
-            raise OidcServiceError(response['error'])
+    _context = client.client_get("service_context")
+    try:
+        _context.set('issuer', _context.config['srv_discovery_url'])
+    except KeyError:
+        pass
+
+    response = client.do_request('provider_info', behaviour_args=behaviour_args)
+    if is_error_message(response):
+        raise OidcServiceError(response['error'])
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 49118bc..08fa112 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -905,9 +905,8 @@ class RPHandler(object):
         if client is None:
             client = self.get_client_from_session_key(state)
 
-        try:
-            srv = client.client_get('service', 'end_session')
-        except KeyError:
+        srv = client.client_get('service', 'end_session')
+        if srv is None:
             raise OidcServiceError("Does not know how to logout")
 
         if post_logout_redirect_uri:
-- 
2.43.0


From fe7660bafbe1a149b039cffa65de3eb272c95bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:18 +0000
Subject: [PATCH 08/53] fix: finalize must work also when no subject identifier
 is received

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 08fa112..da03862 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -810,7 +810,7 @@ class RPHandler(object):
 
         if _id_token:
             _context.state.store_sub2state(_id_token['sub'], _state)
-        else:
+        elif 'sub' in inforesp:
             _context.state.store_sub2state(inforesp['sub'], _state)
 
         return {
-- 
2.43.0


From 202da66600007fa955ea9c046f5ae5653bfec42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 09/53] fix: get_response_type looked for the service context
 in the wrong place

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index da03862..e92d225 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -465,7 +465,7 @@ class RPHandler(object):
         :param client: A Client instance
         :return: The response_type
         """
-        return client.service_context.get('behaviour')['response_types'][0]
+        return client.client_get("service_context").get('behaviour')['response_types'][0]
 
     @staticmethod
     def get_client_authn_method(client, endpoint):
-- 
2.43.0


From b9998b37f419dfca12504046dc04136f5a34c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 10/53] fix: a client using only 'code id_token' needs a
 callback URL

---
 src/oidcrp/oidc/registration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 06a3ea9..5611238 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -125,7 +125,7 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
         # code and/or implicit
         if _in_config_or_client_preferences(context.config, "response_types", "code"):
             _uris['code'] = True
-        for rt in ["id_token", "id_token token", "code id_token token", "code idtoken",
+        for rt in ["id_token", "id_token token", "code id_token token", "code id_token",
                    "code token"]:
             if _in_config_or_client_preferences(context.config, "response_types", rt):
                 _uris["implicit"] = True
-- 
2.43.0


From 8871570020b9b0d3cd0232c1cc60a4fc2025d393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:58 +0000
Subject: [PATCH 11/53] fix: issuer_mismatch set to False must not allow issuer
 mismatch

---
 src/oidcrp/oauth2/provider_info_discovery.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oidcrp/oauth2/provider_info_discovery.py b/src/oidcrp/oauth2/provider_info_discovery.py
index 4aa4033..1760f70 100644
--- a/src/oidcrp/oauth2/provider_info_discovery.py
+++ b/src/oidcrp/oauth2/provider_info_discovery.py
@@ -66,9 +66,7 @@ class ProviderInfoDiscovery(Service):
 
         # In some cases we can live with the two URLs not being
         # the same. But this is an excepted that has to be explicit
-        try:
-            self.client_get("service_context").allow['issuer_mismatch']
-        except KeyError:
+        if not self.client_get("service_context").allow.get('issuer_mismatch'):
             if _issuer != _pcr_issuer:
                 raise OidcServiceError(
                     "provider info issuer mismatch '%s' != '%s'" % (
-- 
2.43.0


From 9f7319b48febf5cd328b55862b765b68cde88f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:12 +0000
Subject: [PATCH 12/53] fix: URL schemes are case-insensitive, 'HTTP://' links
 are http links too

---
 src/oidcrp/oidc/webfinger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/webfinger.py b/src/oidcrp/oidc/webfinger.py
index a442a36..7c7ad8e 100644
--- a/src/oidcrp/oidc/webfinger.py
+++ b/src/oidcrp/oidc/webfinger.py
@@ -58,7 +58,7 @@ class WebFinger(Service):
                     except KeyError:
                         _http_allowed = False
 
-                    if _href.startswith('http://') and not _http_allowed:
+                    if _href.lower().startswith('http://') and not _http_allowed:
                         raise ValueError(
                             'http link not allowed ({})'.format(_href))
 
-- 
2.43.0


From 7953ece4bd5efa093de87f523af10f786c822a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:26 +0000
Subject: [PATCH 13/53] fix: use yaml.safe_load for the logging configuration

---
 src/oidcrp/logging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/logging.py b/src/oidcrp/logging.py
index baf1db9..3f2071b 100755
--- a/src/oidcrp/logging.py
+++ b/src/oidcrp/logging.py
@@ -40,7 +40,7 @@ def configure_logging(debug: Optional[bool] = False,
         config_source = 'dictionary'
     elif filename is not None and os.path.exists(filename):
         with open(filename, "rt") as file:
-            config_dict = yaml.load(file)
+            config_dict = yaml.safe_load(file)
         config_source = 'file'
     else:
         config_dict = LOGGING_DEFAULT
-- 
2.43.0


From 4b6e3b362fdd338f1cf4e04f51dc77f5c283a745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:37 +0000
Subject: [PATCH 14/53] fix: a tampered encrypted cookie must be reported as
 InvalidCookieSign

---
 src/oidcrp/cookie.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 7ece2ef..734f3b3 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -7,6 +7,7 @@ import os
 import sys
 import time
 
+from cryptography.exceptions import InvalidTag
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM
 from cryptojwt.jwe.exception import JWEException
 from cryptojwt.jwe.utils import split_ctx_and_tag
@@ -249,7 +250,7 @@ def parse_cookie(name, seed, kaka, enc_key=None):
         aad = timestamp.encode('utf-8')
         try:
             cleartext = aesgcm.decrypt(iv, ct, aad)
-        except JWEException:
+        except (JWEException, InvalidTag):
             raise InvalidCookieSign()
         return cleartext.decode('utf-8'), timestamp
     return None
-- 
2.43.0


From 23c333efc45d18d376bc87b14ee696e7538f17f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:18 +0000
Subject: [PATCH 15/53] fix: a registered request_uri must not be mapped to a
 file outside the RP's directory

---
 src/oidcrp/service_context.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index f68f81c..182c8d3 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -212,7 +212,11 @@ class ServiceContext(OidcContext):
 
         _name = webname[len(self.base_url):]
         if _name.startswith('/'):
-            return _name[1:]
+            _name = _name[1:]
+
+        # The URL may have been chosen by someone else. Must not point outside the directory tree.
+        if os.path.isabs(_name) or os.pardir in _name.split('/'):
+            raise ValueError("Webname doesn't match a local file")
 
         return _name
 
-- 
2.43.0


From 9a2d452635c9709304faff3dd1258c2c91ea742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:29 +0000
Subject: [PATCH 16/53] fix: aggregated and distributed claims must not replace
 the verified sub

---
 src/oidcrp/oidc/__init__.py | 2 ++
 src/oidcrp/oidc/userinfo.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/oidcrp/oidc/__init__.py b/src/oidcrp/oidc/__init__.py
index df9db5e..c28659b 100755
--- a/src/oidcrp/oidc/__init__.py
+++ b/src/oidcrp/oidc/__init__.py
@@ -173,6 +173,8 @@ class RP(oauth2.Client):
 
                     # only add those I expected
                     for key in claims:
+                        if key == 'sub':  # has to come from the OP
+                            continue
                         userinfo[key] = _uinfo[key]
 
         return userinfo
diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index 6c93b80..7fbff22 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -96,6 +96,8 @@ class UserInfo(Service):
                                   src == csrc]
 
                         for key in claims:
+                            if key == 'sub':  # has to come from the OP
+                                continue
                             response[key] = aggregated_claims[key]
                 elif 'endpoint' in spec:
                     _info = {
-- 
2.43.0


From 67a06f10a4d25378d1267265df89fae08e3d7404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 17/53] fix: a refresh response must not wipe out what the
 original token response contained

---
 src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py | 2 +-
 src/oidcrp/oauth2/refresh_access_token.py                       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index 13468a4..5fbe235 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -52,4 +52,4 @@ class CCRefreshAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+        self.client_get("service_context").state.store_item(resp, 'refresh_token_response', key)
diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 4b5efa6..474e269 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -30,7 +30,7 @@ class RefreshAccessToken(Service):
     def update_service_context(self, resp, key='', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+        self.client_get("service_context").state.store_item(resp, 'refresh_token_response', key)
 
     def oauth_pre_construct(self, request_args=None, **kwargs):
         """Preconstructor of request arguments"""
-- 
2.43.0


From 25c57ea02bd1c219daa1847e548965fe887ba5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:52 +0000
Subject: [PATCH 18/53] fix: HTTP Basic credentials are base64 and not
 base64url encoded

---
 src/oidcrp/client_auth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 2a480bb..13cf852 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -79,7 +79,7 @@ class ClientSecretBasic(ClientAuthnMethod):
 
     The upshot of this is to construct an Authorization header that has the
     value 'Basic <token>' where <token> is username and password concatenated
-    together with a ':' in between and then URL safe base64 encoded.
+    together with a ':' in between and then base64 encoded.
 
     Note that both username and password
     """
@@ -118,7 +118,7 @@ class ClientSecretBasic(ClientAuthnMethod):
         user = self._get_user(service, **kwargs)
 
         credentials = "{}:{}".format(quote_plus(user), quote_plus(passwd))
-        return base64.urlsafe_b64encode(credentials.encode("utf-8")).decode("utf-8")
+        return base64.b64encode(credentials.encode("utf-8")).decode("utf-8")
 
     @staticmethod
     def _with_or_without_client_id(request, service):
-- 
2.43.0


From a3cc0857e4231c38a34222a61919e5063c4dc80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 19/53] fix: JWT based client authentication of requests that
 can not carry client_id

---
 src/oidcrp/client_auth.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 13cf852..60acff6 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -530,7 +530,12 @@ class JWSAuthnMethod(ClientAuthnMethod):
             pass
 
         # If client_id is not required to be present, remove it.
-        if not request.c_param["client_id"][VREQUIRED]:
+        try:
+            _req = request.c_param["client_id"][VREQUIRED]
+        except (KeyError, AttributeError):
+            _req = False
+
+        if not _req:
             try:
                 del request["client_id"]
             except KeyError:
-- 
2.43.0


From bdced66126cb58a5d9f73a7124cb64769c31ed54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:15 +0000
Subject: [PATCH 20/53] fix: moving a token to the header must not modify the
 message class for everyone

---
 src/oidcrp/client_auth.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 60acff6..8972fd3 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -259,8 +259,9 @@ def find_token(request, token_type, service, **kwargs):
             pass
         else:
             del request[token_type]
-            # Required under certain circumstances :-) not under other
-            request.c_param[token_type] = SINGLE_OPTIONAL_STRING
+            # Required under certain circumstances :-) not under other.
+            # This only goes for this request, not for the message class.
+            request.c_param = {**request.c_param, token_type: SINGLE_OPTIONAL_STRING}
             return _token
 
     try:
-- 
2.43.0


From 7fc97c2669ee82399142447580b91bb26ce4d48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 21/53] fix: ID Tokens in refresh responses must follow the
 registered algorithms

---
 src/oidcrp/oidc/refresh_access_token.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index d6af5a3..6dab80e 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -1,6 +1,7 @@
 from oidcmsg import oidc
 
 from oidcrp.oauth2 import refresh_access_token
+from oidcrp.oidc import access_token
 
 
 class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
@@ -8,6 +9,10 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
     response_cls = oidc.AccessTokenResponse
     error_msg = oidc.ResponseMessage
 
+    # An ID Token in a refresh response has to fulfill the same requirements as one
+    # in the original token response.
+    gather_verify_arguments = access_token.AccessToken.gather_verify_arguments
+
     def get_authn_method(self):
         try:
             return self.client_get("service_context").behaviour['token_endpoint_auth_method']
-- 
2.43.0


From 45a672e7f4f155b6f2c51c9c60483f6f5984a868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 22/53] fix: token_endpoint_auth_signing_alg is optional in a
 registration response

---
 src/oidcrp/client_auth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 8972fd3..d776b21 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -457,7 +457,7 @@ class JWSAuthnMethod(ClientAuthnMethod):
         if 'authn_endpoint' in kwargs and kwargs['authn_endpoint'] in ['token_endpoint']:
             reg_resp = context.registration_response
             if reg_resp:
-                algorithm = reg_resp["token_endpoint_auth_signing_alg"]
+                algorithm = reg_resp.get("token_endpoint_auth_signing_alg")
             else:
                 algorithm = context.client_preferences.get("token_endpoint_auth_signing_alg")
                 if algorithm is None:
-- 
2.43.0


From 21fb6cf318c6a20ed9f7cd0947db6328e6fcdcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:01 +0000
Subject: [PATCH 23/53] fix: an authorization response must not be able to set
 token request parameters

---
 src/oidcrp/oauth2/access_token.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/access_token.py b/src/oidcrp/oauth2/access_token.py
index 285a51f..b9c459a 100644
--- a/src/oidcrp/oauth2/access_token.py
+++ b/src/oidcrp/oauth2/access_token.py
@@ -48,8 +48,9 @@ class AccessToken(Service):
         _args = _context.state.extend_request_args({}, oauth2.AuthorizationRequest,
                                                    'auth_request', _state, parameters)
 
+        # Nothing but the code may be taken from what came through the user agent
         _args = _context.state.extend_request_args(_args, oauth2.AuthorizationResponse,
-                                                   'auth_response', _state, parameters)
+                                                   'auth_response', _state, ['code'])
 
         if "grant_type" not in _args:
             _args["grant_type"] = "authorization_code"
-- 
2.43.0


From 92edeef4cca6c64d251347ca21cac15a13ddcc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 24/53] fix: clients created from the default configuration
 must not share it

---
 src/oidcrp/rp_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index e92d225..f653aeb 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -1,3 +1,4 @@
+import copy
 from inspect import currentframe
 import logging
 import sys
@@ -158,7 +159,8 @@ class RPHandler(object):
         try:
             _cnf = self.pick_config(issuer)
         except KeyError:
-            _cnf = self.pick_config('')
+            # The template is used for many issuers so it must not be modified
+            _cnf = copy.deepcopy(self.pick_config(''))
             _cnf['issuer'] = issuer
 
         try:
-- 
2.43.0


From 012f917bddad4ce6197747e026b9f3cfff78c9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 25/53] fix: a temporary webfinger client must not share the
 default configuration

---
 src/oidcrp/rp_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index f653aeb..28eb40e 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -157,9 +157,9 @@ class RPHandler(object):
         logger.debug(20 * "*" + " init_client " + 20 * "*")
 
         try:
-            _cnf = self.pick_config(issuer)
+            # A configuration may be used for more than one client so it must not be modified
+            _cnf = copy.deepcopy(self.pick_config(issuer))
         except KeyError:
-            # The template is used for many issuers so it must not be modified
             _cnf = copy.deepcopy(self.pick_config(''))
             _cnf['issuer'] = issuer
 
-- 
2.43.0


From 443d0feacfecf3c9611c7deb55ba54b729bc8e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:07 +0000
Subject: [PATCH 26/53] fix: client_setup must reuse the client that already
 serves an issuer

---
 src/oidcrp/rp_handler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 28eb40e..7d9cb74 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -332,11 +332,14 @@ class RPHandler(object):
 
             logger.debug("Connecting to previously unknown OP")
             temporary_client = self.do_webfinger(user)
+            iss_id = temporary_client.client_get("service_context").get('issuer')
         else:
             temporary_client = None
 
+        # A client that has ongoing sessions must not be replaced. Note that iss_id may be
+        # the name of a configuration and not the issuer ID.
         try:
-            client = self.issuer2rp[iss_id]
+            client = self.issuer2rp[self.hash2issuer.get(iss_id, iss_id)]
         except KeyError:
             if temporary_client:
                 client = temporary_client
-- 
2.43.0


From 113c94ee6519e95a245af2415c4f28cadd666799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:18 +0000
Subject: [PATCH 27/53] fix: a back-channel logout for one session must not log
 out another one

---
 src/oidcrp/rp_handler.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 7d9cb74..00947c3 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -976,16 +976,19 @@ def backchannel_logout(client, request='', request_args=None):
     else:
         logger.debug("Request verified OK")
 
-    # Find the subject through 'sid' or 'sub'
+    # Find the session through 'sid' or 'sub'. 'sid' identifies one session while 'sub' may
+    # have many.
     sub = req[verified_claim_name('logout_token')].get('sub')
-    sid = None
-    if not sub:
-        sid = req[verified_claim_name('logout_token')].get('sid')
+    sid = req[verified_claim_name('logout_token')].get('sid')
 
     if not sub and not sid:
         raise MessageException('Neither "sid" nor "sub"')
-    elif sub:
-        _state = _context.state.get_state_by_sub(sub)
-    elif sid:
-        _state = _context.state.get_state_by_sid(sid)
-    return _state
+
+    if sid:
+        try:
+            return _context.state.get_state_by_sid(sid)
+        except KeyError:
+            if not sub:
+                raise
+
+    return _context.state.get_state_by_sub(sub)
-- 
2.43.0


From f9a68bbe53336d2e5e3efcf387b1cc3d448c6e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 28/53] fix: the registration access token is part of what has
 to survive a restart

---
 src/oidcrp/service_context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 182c8d3..5b4eba3 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -108,6 +108,7 @@ class ServiceContext(OidcContext):
         'redirect_uris': None,
         "requests_dir": None,
         "register_args": None,
+        "registration_access_token": None,
         'registration_response': None,
         'state': StateInterface,
         'verify_args': None
@@ -140,6 +141,7 @@ class ServiceContext(OidcContext):
         self.post_logout_redirect_uris = []
         self.redirect_uris = []
         self.register_args = {}
+        self.registration_access_token = ""
         self.registration_response = {}
         self.requests_dir = ''
 
-- 
2.43.0


From f830614f5cc9d1383ddbf1788de5d0fec10c1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:18 +0000
Subject: [PATCH 29/53] fix: add a nonce for every response type that yields an
 ID Token, not only single-valued ones

---
 src/oidcrp/oidc/authorization.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 5845640..13e4322 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -83,14 +83,15 @@ class Authorization(authorization.Authorization):
         if request_args is None:
             request_args = {}
 
-        try:
-            _response_types = [request_args["response_type"]]
-        except KeyError:
+        if "response_type" not in request_args:
             _response_types = _context.behaviour.get('response_types')
             if _response_types:
                 request_args["response_type"] = _response_types[0]
             else:
                 request_args["response_type"] = "code"
+        _response_type = request_args["response_type"]
+        if not isinstance(_response_type, str):
+            _response_type = ' '.join(_response_type)
 
         # For OIDC 'openid' is required in scope
         if 'scope' not in request_args:
@@ -100,7 +101,7 @@ class Authorization(authorization.Authorization):
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
-        if "code" in _response_types or "id_token" in _response_types:
+        if "code" in _response_type or "id_token" in _response_type:
             if "nonce" not in request_args:
                 request_args["nonce"] = rndstr(32)
 
@@ -214,7 +215,7 @@ class Authorization(authorization.Authorization):
         """
         _context = self.client_get("service_context")
         if 'openid' in req['scope']:
-            _response_type = req['response_type'][0]
+            _response_type = ' '.join(req['response_type'])
             if 'id_token' in _response_type or 'code' in _response_type:
                 _context.state.store_nonce2state(req['nonce'], req['state'])
 
-- 
2.43.0


From f82960ebb61567c7df4fec7ba490673e8eaf2021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 30/53] fix: apply the configured HTTP parameters when the keys
 of a provider are fetched

---
 src/oidcrp/entity.py     | 4 ++++
 src/oidcrp/rp_handler.py | 4 ++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/entity.py b/src/oidcrp/entity.py
index 69dffd6..0f5b62b 100644
--- a/src/oidcrp/entity.py
+++ b/src/oidcrp/entity.py
@@ -42,6 +42,10 @@ class Entity():
         self._service_context = ServiceContext(keyjar=keyjar, config=config,
                                                jwks_uri=jwks_uri, httpc_params=self.httpc_params)
 
+        # The key jar fetches the keys of the provider
+        _keyjar = self._service_context.keyjar
+        _keyjar.httpc_params = {**self.httpc_params, **(_keyjar.httpc_params or {})}
+
         _cam = client_authn_factory or factory
 
         _srvs = services or DEFAULT_SERVICES
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 00947c3..7dea47f 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -99,8 +99,8 @@ class RPHandler(object):
         else:
             self.httpc_params = httpc_params
 
-        if not self.keyjar.httpc_params:
-            self.keyjar.httpc_params = self.httpc_params
+        # A key jar always has some parameters (a timeout) of its own.
+        self.keyjar.httpc_params = {**self.httpc_params, **(self.keyjar.httpc_params or {})}
 
     def state2issuer(self, state):
         """
-- 
2.43.0


From b323b452c1d2b62a991be230f9665c03a44213c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 31/53] fix: send pushed authorization requests with the
 configured HTTP client

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 4fd1058..7fd4411 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -3,7 +3,6 @@ import logging
 from cryptojwt import JWT
 from oidcmsg.message import Message
 from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest
-import requests
 
 logger = logging.getLogger(__name__)
 
@@ -33,9 +32,11 @@ def push_authorization(request_args, service, **kwargs):
         _body = _msg.to_urlencoded()
 
     # Send it to the Pushed Authorization Request Endpoint
-    resp = method_args["http_client"].get(
-        _context.provider_info["pushed_authorization_request_endpoint"], data=_body
-    )
+    _endpoint = _context.provider_info["pushed_authorization_request_endpoint"]
+    if method_args["http_client"] is None:
+        resp = service.client_get("entity").http(_endpoint, "GET", data=_body)
+    else:
+        resp = method_args["http_client"].get(_endpoint, data=_body)
 
     if resp.status_code == 200:
         _resp = Message().from_json(resp.text)
@@ -54,15 +55,12 @@ def add_support(services, body_format="jws", signing_algorithm="RS256",
     Add the necessary pieces to make Demonstration of proof of possession (DPOP).
 
     :param merge_rule:
-    :param http_client:
+    :param http_client: By default the HTTP client of the entity the services belong to
     :param signing_algorithm:
     :param services: A dictionary with all the services the client has access to.
     :param body_format: jws or urlencoded
     """
 
-    if http_client is None:
-        http_client = requests
-
     _service = services["authorization"]
     _service.client_get("service_context").add_on['pushed_authorization'] = {
         "body_format": body_format,
-- 
2.43.0


From 774776b61396a15c1c5ae9af9c166dc015abcdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 32/53] fix: sign pushed authorization requests with the
 algorithm configured

---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 7fd4411..72e02fe 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -21,7 +21,8 @@ def push_authorization(request_args, service, **kwargs):
     if method_args["body_format"] == "urlencoded":
         _body = request_args.to_urlencoded()
     else:
-        _jwt = JWT(key_jar=_context.keyjar, iss=_context.base_url)
+        _jwt = JWT(key_jar=_context.keyjar, iss=_context.base_url,
+                   sign_alg=method_args["signing_algorithm"])
         _jws = _jwt.pack(request_args.to_dict())
 
         _msg = Message(request=_jws)
-- 
2.43.0


From 86cc3dfc3b115c7dfae922dca5197e83da8ff586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:06 +0000
Subject: [PATCH 33/53] fix: an error answer to a webfinger request ends the
 discovery

---
 src/oidcrp/rp_handler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 7dea47f..3976eb9 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -301,7 +301,9 @@ class RPHandler(object):
         logger.debug(20 * "*" + " do_webfinger " + 20 * "*")
 
         temporary_client = self.init_client('')
-        temporary_client.do_request('webfinger', resource=user)
+        response = temporary_client.do_request('webfinger', resource=user)
+        if is_error_message(response):
+            raise OidcServiceError(response['error'])
         return temporary_client
 
     def client_setup(self,
-- 
2.43.0


From 81b12dc8738ff544d2223a4ef00cd40748d9a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:58 +0000
Subject: [PATCH 34/53] fix: a malformed cookie yields nothing or
 InvalidCookieSign

Broken base64 or an initialisation vector of the wrong length made
parse_cookie raise ValueError, and cookie names that are not legal made it
raise CookieError.
---
 src/oidcrp/cookie.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 734f3b3..b6828e6 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -1,6 +1,7 @@
 import base64
 import hashlib
 import hmac
+from http.cookies import CookieError
 from http.cookies import SimpleCookie
 import logging
 import os
@@ -236,9 +237,12 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     elif len(parts) == 4:
         # encrypted and signed
         timestamp = parts[0]
-        iv = base64.b64decode(parts[1])
-        ciphertext = base64.b64decode(parts[2])
-        tag = base64.b64decode(parts[3])
+        try:
+            iv = base64.b64decode(parts[1])
+            ciphertext = base64.b64decode(parts[2])
+            tag = base64.b64decode(parts[3])
+        except ValueError:
+            raise InvalidCookieSign()
         ct = ciphertext + tag
 
         # Make sure the key is 32-Bytes long
@@ -250,7 +254,7 @@ def parse_cookie(name, seed, kaka, enc_key=None):
         aad = timestamp.encode('utf-8')
         try:
             cleartext = aesgcm.decrypt(iv, ct, aad)
-        except (JWEException, InvalidTag):
+        except (JWEException, InvalidTag, ValueError):
             raise InvalidCookieSign()
         return cleartext.decode('utf-8'), timestamp
     return None
@@ -265,7 +269,10 @@ def cookie_parts(name, kaka):
     :return: A list of parts or None if there is no cookie object with the
         given name
     """
-    cookie_obj = SimpleCookie(as_unicode(kaka))
+    try:
+        cookie_obj = SimpleCookie(as_unicode(kaka))
+    except CookieError:
+        return None
     morsel = cookie_obj.get(name)
     if morsel:
         return morsel.value.split("|")
-- 
2.43.0


From 2352e01e39a86610dc4ee5d2ff196f8c3f4a2a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:04 +0000
Subject: [PATCH 35/53] fix: get_cookie_value handles values that contain '::'

---
 src/oidcrp/cookie.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index b6828e6..ef1e4f9 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -394,7 +394,10 @@ class CookieDealer(object):
             except (TypeError, AssertionError):
                 return None
             else:
-                value, _ts, typ = info.split("::")
+                try:
+                    value, _ts, typ = info.rsplit("::", 2)
+                except ValueError:
+                    return None
                 if timestamp == _ts:
                     return value, _ts, typ
         return None
-- 
2.43.0


From 4306e8ed625b41794db6ecac32d4b7aa285fb1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:16 +0000
Subject: [PATCH 36/53] fix: a client must not be replaced when its issuer
 turns out to be served already

Two names for one issuer (a configuration name, an identifier with and
without a trailing slash) led to a second client that replaced the first one
together with its ongoing sessions.
---
 src/oidcrp/rp_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 3976eb9..8109b90 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -354,6 +354,11 @@ class RPHandler(object):
         logger.debug("Get provider info")
         issuer = self.do_provider_info(client, behaviour_args=behaviour_args)
 
+        # Only now is it known for sure which issuer it is.
+        if issuer in self.issuer2rp:
+            self.hash2issuer[iss_id] = issuer
+            return self.issuer2rp[issuer]
+
         logger.debug("Do client registration")
         self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
 
-- 
2.43.0


From 34dd3e3d5a75d74d6128c65a5f62320ac7083320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:24 +0000
Subject: [PATCH 37/53] fix: init_services must not modify the service
 definitions

The keyword arguments of a service definition were extended with the
client_get function of the client, though the definitions are shared by all
the clients of an RPHandler.
---
 src/oidcrp/service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index b45a42b..0101ff8 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -626,7 +626,8 @@ def init_services(service_definitions, client_get, client_authn_factory=None):
     service = DLDict()
     for service_name, service_configuration in service_definitions.items():
         try:
-            kwargs = service_configuration['kwargs']
+            # The definitions may be used for more than one client so they must not be modified
+            kwargs = dict(service_configuration['kwargs'])
         except KeyError:
             kwargs = {}
 
-- 
2.43.0


From 3eb2f5998ad570ea440012a2221990f1e5b77793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:31 +0000
Subject: [PATCH 38/53] fix: configure_logging must not modify the default
 configuration

Once debug was asked for it stayed on for every later use of the default.
---
 src/oidcrp/logging.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/logging.py b/src/oidcrp/logging.py
index 3f2071b..1cd8d3b 100755
--- a/src/oidcrp/logging.py
+++ b/src/oidcrp/logging.py
@@ -1,6 +1,7 @@
 """Common logging functions"""
 
 import os
+import copy
 import logging
 from logging.config import dictConfig
 from typing import Optional
@@ -43,7 +44,7 @@ def configure_logging(debug: Optional[bool] = False,
             config_dict = yaml.safe_load(file)
         config_source = 'file'
     else:
-        config_dict = LOGGING_DEFAULT
+        config_dict = copy.deepcopy(LOGGING_DEFAULT)
         config_source = 'default'
 
     if debug:
-- 
2.43.0


From c664c913ed53204e7d592a5a69eb6e3edd235219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:03 +0000
Subject: [PATCH 39/53] fix: choose the callback by the response type and mode
 actually requested

Request arguments from the configuration (e.g. response_mode) were merged after
the redirect_uri had been picked, so the callback did not match the request.
---
 src/oidcrp/rp_handler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 8109b90..64f7072 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -401,9 +401,6 @@ class RPHandler(object):
         _nonce = rndstr(24)
         _response_type = self._get_response_type(_context, req_args)
         request_args = {
-            'redirect_uri': pick_redirect_uri(_context,
-                                              request_args=req_args,
-                                              response_type=_response_type),
             'scope': _context.get('behaviour')['scope'],
             'response_type': _response_type,
             'nonce': _nonce
@@ -418,6 +415,11 @@ class RPHandler(object):
         if req_args is not None:
             request_args.update(req_args)
 
+        # The callback depends on what response type and mode will be asked for
+        request_args['redirect_uri'] = pick_redirect_uri(
+            _context, request_args=request_args,
+            response_type=request_args['response_type'])
+
         # Need a new state for a new authorization request
         _state = _context.state.create_state(_context.get('issuer'))
         request_args['state'] = _state
-- 
2.43.0


From 3cda655fad1a7fea0ee49b48674f745e69ea0423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 40/53] fix: a file name is only derived from a URL below the
 client's base URL

A URL that merely starts with the same characters (https://rp.example.community for
base URL https://rp.example.com) was accepted as one of the client's own.
---
 src/oidcrp/service_context.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 5b4eba3..1dbf2e2 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -215,6 +215,9 @@ class ServiceContext(OidcContext):
         _name = webname[len(self.base_url):]
         if _name.startswith('/'):
             _name = _name[1:]
+        elif not self.base_url.endswith('/'):
+            # Another host or path that happens to start with the same characters
+            raise ValueError("Webname doesn't match base_url")
 
         # The URL may have been chosen by someone else. Must not point outside the directory tree.
         if os.path.isabs(_name) or os.pardir in _name.split('/'):
-- 
2.43.0


From 526da41cb45e7b5aeaca09ec0d2b0cc09a028cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 41/53] fix: never use a symmetric key for DPoP proofs

With HS256 configured and supported by the provider the secret key itself was
put in the header of every proof.
---
 src/oidcrp/oauth2/add_on/dpop.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 13981e1..5143a62 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -4,6 +4,7 @@ import uuid
 from cryptojwt.jwk.jwk import key_from_jwk_dict
 from cryptojwt.jws.jws import JWS
 from cryptojwt.jws.jws import factory
+from cryptojwt.jws.utils import alg2keytype
 from cryptojwt.key_bundle import key_by_alg
 from oidcmsg.message import Message
 from oidcmsg.message import SINGLE_REQUIRED_INT
@@ -108,7 +109,8 @@ def dpop_header(service_context: ServiceContext,
 
         chosen_alg = ''
         for alg in service_context.add_on['dpop']["sign_algs"]:
-            if alg in algs_supported:
+            # The key is part of the proof so it can not be a symmetric one
+            if alg in algs_supported and alg2keytype(alg) in ("RSA", "EC"):
                 chosen_alg = alg
                 break
 
-- 
2.43.0


From 7c942fdbfa4358cbf16df9b16133f54e0e6a633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:43 +0000
Subject: [PATCH 42/53] fix: a DPoP proof carries the URL the request is really
 sent to

An endpoint given for one request replaces the provider's, but the proof was
still bound to the latter.
---
 src/oidcrp/oauth2/add_on/dpop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 5143a62..c2c0c74 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -128,7 +128,7 @@ def dpop_header(service_context: ServiceContext,
         "jwk": dpop_key.serialize(),
         "jti": uuid.uuid4().hex,
         "htm": http_method,
-        "htu": provider_info[service_endpoint],
+        "htu": kwargs.get("endpoint") or provider_info[service_endpoint],
         "iat": utc_time_sans_frac()
     }
 
-- 
2.43.0


From cd8152c9c24b1c8a4d9b30c38257a1b5789a0b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:59 +0000
Subject: [PATCH 43/53] fix: a default of the standard is one value, not a
 string to search in

---
 src/oidcrp/oidc/provider_info_discovery.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/provider_info_discovery.py b/src/oidcrp/oidc/provider_info_discovery.py
index 230ce27..c3ff610 100644
--- a/src/oidcrp/oidc/provider_info_discovery.py
+++ b/src/oidcrp/oidc/provider_info_discovery.py
@@ -122,7 +122,7 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
                 try:
                     # If the provider have not specified use what the
                     # standard says is mandatory if at all.
-                    _pvals = PROVIDER_DEFAULT[_pref]
+                    _pvals = [PROVIDER_DEFAULT[_pref]]
                 except KeyError:
                     logger.info(
                         'No info from provider on {} and no default'.format(
-- 
2.43.0


From 55a0f2abe0a6ca03bfde26106015288965506790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:20 +0000
Subject: [PATCH 44/53] fix: the query of an endpoint URL must neither replace
 what is requested nor be lost

---
 src/oidcrp/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index ba4c975..4cc8f8d 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -112,7 +112,9 @@ def get_http_url(url, req, method='GET'):
             _req = req.copy()
             comp = urlsplit(str(url))
             if comp.query:
-                _req.update(parse_qs(comp.query))
+                # What the URL already has must not replace what is requested
+                _have = parse_qs(comp.query, keep_blank_values=True)
+                _req.update({k: v for k, v in _have.items() if k not in req})
 
             _query = str(_req.to_urlencoded())
             return urlunsplit((comp.scheme, comp.netloc, comp.path,
-- 
2.43.0


From 199f9259a8b2736868cf7d6aca21ded2744fd292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:44 +0000
Subject: [PATCH 45/53] fix: a configured request argument that is 0 or False
 is used

---
 src/oidcrp/service.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 0101ff8..73eece2 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -35,6 +35,13 @@ SPECIAL_ARGS = ['authn_endpoint', 'algs']
 REQUEST_INFO = 'Doing request with: URL:{}, method:{}, data:{}, https_args:{}'
 
 
+def is_empty(val) -> bool:
+    """
+    Whether there is nothing to send. False and 0 are values, like in max_age=0.
+    """
+    return not val and not isinstance(val, (bool, int))
+
+
 class Service(ImpExp):
     """The basic Service class."""
     msg_type = Message
@@ -114,17 +121,17 @@ class Service(ImpExp):
                 continue
 
             val = _context.get(prop)
-            if not val:
+            if is_empty(val):
                 if "request_args" in self.conf:
                     val = self.conf['request_args'].get(prop)
-                if not val:
+                if is_empty(val):
                     val = _context.register_args.get(prop)
-                    if not val:
+                    if is_empty(val):
                         val = self.default_request_args.get(prop)
-                        if not val:
+                        if is_empty(val):
                             val = _context.behaviour.get(prop)
 
-            if val:
+            if not is_empty(val):
                 ar_args[prop] = val
 
         return ar_args
-- 
2.43.0


From 15060dfe9d7559c2d75bb18e42a3a45297a60584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:21 +0000
Subject: [PATCH 46/53] fix: report the ID Token of the authorization response
 when the token endpoint returns none

---
 src/oidcrp/rp_handler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 64f7072..0bbc043 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -722,6 +722,8 @@ class RPHandler(object):
         if _resp_type in [{'id_token'}, {'id_token', 'token'},
                           {'code', 'id_token', 'token'}]:
             id_token = authorization_response['__verified_id_token']
+        elif _resp_type == {'code', 'id_token'}:
+            id_token = authorization_response.get('__verified_id_token')
 
         if _resp_type in [{'token'}, {'id_token', 'token'}, {'code', 'token'},
                           {'code', 'id_token', 'token'}]:
@@ -735,7 +737,7 @@ class RPHandler(object):
                     # Now which access_token should I use
                     access_token = token_resp["access_token"]
                     # May or may not get an ID Token
-                    id_token = token_resp.get('__verified_id_token')
+                    id_token = token_resp.get('__verified_id_token', id_token)
 
         elif _resp_type in [{'code'}, {'code', 'id_token'}]:
             # get the access token
@@ -745,7 +747,7 @@ class RPHandler(object):
 
             access_token = token_resp["access_token"]
             # May or may not get an ID Token
-            id_token = token_resp.get('__verified_id_token')
+            id_token = token_resp.get('__verified_id_token', id_token)
 
         return {'access_token': access_token, 'id_token': id_token}
 
-- 
2.43.0


From 03facd9235646c9549cc66c9d18b9433314a303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:45 +0000
Subject: [PATCH 47/53] fix: list jwks_uri among what is dumped of a service
 context

---
 src/oidcrp/service_context.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 1dbf2e2..c6cb287 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -102,6 +102,7 @@ class ServiceContext(OidcContext):
         "hash2issuer": None,
         "httpc_params": None,
         'issuer': None,
+        "jwks_uri": None,
         "kid": None,
         "post_logout_redirect_uris": None,
         'provider_info': None,
-- 
2.43.0


From 1bbb01bb80d102558dcc34165a2e11bfb47ba1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:24 +0000
Subject: [PATCH 48/53] fix: starting an authentication changed the configured
 request arguments of the client

---
 src/oidcrp/rp_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 0bbc043..1317226 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -408,9 +408,9 @@ class RPHandler(object):
 
         _req_args = _context.config.get("request_args")
         if _req_args:
-            if 'claims' in _req_args:
-                _req_args["claims"] = Claims(**_req_args["claims"])
             request_args.update(_req_args)
+            if 'claims' in _req_args:
+                request_args["claims"] = Claims(**_req_args["claims"])
 
         if req_args is not None:
             request_args.update(req_args)
-- 
2.43.0


From bb211f631c071615dac8d732686810a0f387c988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:30 +0000
Subject: [PATCH 49/53] fix: adding openid to the scope of a request changed
 the configuration or the arguments of the caller

---
 src/oidcrp/oidc/authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 13e4322..6d03768 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -97,7 +97,8 @@ class Authorization(authorization.Authorization):
         if 'scope' not in request_args:
             request_args['scope'] = _context.behaviour.get("scope", ["openid"])
         elif 'openid' not in request_args['scope']:
-            request_args['scope'].append('openid')
+            # The list may be part of the configuration, or belong to the caller
+            request_args['scope'] = request_args['scope'] + ['openid']
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
-- 
2.43.0


From 46926a27c9783602d8f2c916e3d74e62ef06786a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:56 +0000
Subject: [PATCH 50/53] fix: the hash seed given to the handler was not used
 for the callbacks of its clients

---
 src/oidcrp/rp_handler.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 1317226..f6e6a68 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -186,6 +186,8 @@ class RPHandler(object):
 
         _context.base_url = self.base_url
         _context.jwks_uri = self.jwks_uri
+        if not _cnf.get('hash_seed'):
+            _context.hash_seed = self.hash_seed
         return client
 
     def do_provider_info(self,
-- 
2.43.0


From be63844631e2b3950a28f7ca9e10e41331e1cda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:34 +0000
Subject: [PATCH 51/53] fix: use the reference of a pushed authorization
 request that was created

RFC 9126 has the endpoint answer 201 Created; such an answer was ignored and the
complete request sent through the browser.
---
 src/oidcrp/oauth2/add_on/pushed_authorization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 72e02fe..bb1c63c 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -39,7 +39,7 @@ def push_authorization(request_args, service, **kwargs):
     else:
         resp = method_args["http_client"].get(_endpoint, data=_body)
 
-    if resp.status_code == 200:
+    if resp.status_code in (200, 201):
         _resp = Message().from_json(resp.text)
         _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
         if method_args["merge_rule"] == "lax":
-- 
2.43.0


From 1d5f7a628c96f39cc39174c4be73fed4afabde65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:22 +0000
Subject: [PATCH 52/53] fix: fill in domain and port in all URIs of a
 configuration

URIS was never used, so that the redirect_uris and logout URIs of a client kept
a literal {domain} and {port}.
---
 src/oidcrp/configure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index 800d24f..87e70d5 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -24,6 +24,8 @@ URIS = [
 
 
 class RPConfiguration(Base):
+    uris = URIS
+
     def __init__(self,
                  conf: Dict,
                  base_path: Optional[str] = '',
@@ -60,6 +62,7 @@ class RPConfiguration(Base):
 
 class Configuration(Base):
     """RP Configuration"""
+    uris = URIS
 
     def __init__(self,
                  conf: Dict,
-- 
2.43.0


From 33caa2923ad54975d1373812f2889a49b9eddb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:23 +0000
Subject: [PATCH 53/53] fix: use the domain and port that are given or
 configured

RPConfiguration took its own defaults instead of what the configuration says and
Configuration formatted the URIs before its arguments were looked at.
---
 src/oidcrp/configure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index 87e70d5..ae2736f 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -30,8 +30,8 @@ class RPConfiguration(Base):
                  conf: Dict,
                  base_path: Optional[str] = '',
                  entity_conf: Optional[List[dict]] = None,
-                 domain: Optional[str] = "127.0.0.1",
-                 port: Optional[int] = 80,
+                 domain: Optional[str] = "",
+                 port: Optional[int] = 0,
                  file_attributes: Optional[List[str]] = None,
                  dir_attributes: Optional[List[str]] = None,
                  ):
@@ -74,7 +74,7 @@ class Configuration(Base):
                  dir_attributes: Optional[List[str]] = None,
                  ):
         Base.__init__(self, conf, base_path=base_path, file_attributes=file_attributes,
-                      dir_attributes=dir_attributes)
+                      dir_attributes=dir_attributes, domain=domain, port=port)
 
         log_conf = conf.get('logging')
         if log_conf:
-- 
2.43.0

