import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=['src/oidcrp/'+f for f in files],mechanism=[dict(name=n,where='src/oidcrp/'+w) for n,w in mech]))
    if observe: d['anchors']['observe_at']=observe
    assert len(title)<=80,(title,len(title))
    P.append(d)

p('C01','An authorization response only counts for the issuer its session started with',
"An authorization response delivered together with an issuer is accepted as successful, and anything from it recorded, only when the state value it carries names a stored session and that session was started with exactly that issuer. In every other case (unknown state, other issuer) the call fails and no session record changes. Looking up the client for a session key only ever yields the client of the issuer stored in that session.",
['inputs','histories'],'every response, every issuer argument, every set of stored sessions over any number of clients',
'The tests send a handful of matching responses and one wrong issuer; the claim is about every pairing of response, issuer and stored session, and about every path to the store.',
['rp_handler.py','state_interface.py'],[('RPHandler.finalize_auth','rp_handler.py'),('RPHandler.state2issuer / get_client_from_session_key','rp_handler.py'),('StateInterface.get_iss / create_state / store_item','state_interface.py')],
['RPHandler.finalize_auth','RPHandler.get_client_from_session_key'])

p('C02','Starting an authentication creates one fresh, fully recorded session',
"Every started authentication gets a newly created session recorded for the issuer of the client in use, and the state value returned to the caller is the state value in the request the user is redirected with. The nonce in that request is mapped back to that session, the redirect URI and scope in it come from the caller or from the client's own configuration, and the complete authorization request is stored under that state so that the response can be matched against it.",
['inputs','configurations','histories'],'every client configuration, every set of request arguments, every sequence of starts',
'Tests start a few sessions with fixed configurations; freshness and the agreement between URL, returned key and stored record must hold for all of them.',
['rp_handler.py','oidc/authorization.py','oauth2/authorization.py','oauth2/utils.py'],[('RPHandler.init_authorization / begin','rp_handler.py'),('Authorization.set_state, oidc_pre_construct, oidc_post_construct','oidc/authorization.py'),('store_auth_request','oauth2/authorization.py')],
['RPHandler.begin'])

p('C03','No service response is returned as a success before it has been verified',
"A service response is handed to the caller as a success only after it was parsed into that service's response type, verified with that service's own verification arguments, and passed through that service's own post-processing, in that order. A failure or a negative verdict in any of these steps surfaces as an exception and never as a returned response. Services whose response is a JOSE object unpack and verify it in their own post-processing instead.",
['inputs'],'every response body, every format, every service',
'Tests feed well-formed responses and a few broken ones; that no path returns an unverified message is a statement about all paths.',
['service.py','oauth2/__init__.py'],[('Service.parse_response','service.py'),('Client.parse_request_response','oauth2/__init__.py')],['Service.parse_response'])

p('C04','ID Token and user info checks use only local policy',
"Whenever an authorization, token or refresh response or a user info response is verified, the checks run with the client's own issuer value as the expected issuer, its own client id as the expected audience, its own key jar, its own clock skew, and the signing and encryption algorithms the client registered for exactly that kind of object. Signature checking is always on, arguments configured for the verification all apply, leniency about missing key ids or unsigned tokens exists only where the client was explicitly configured to have it, and nothing in the response can influence any of these settings.",
['inputs','configurations'],'every response and every client configuration and registration response',
'Tests run a few registrations with a fixed algorithm; an omitted or swapped argument only shows with a token crafted for exactly that gap.',
['oidc/authorization.py','oidc/access_token.py','oidc/refresh_access_token.py','oidc/userinfo.py','service.py','oidc/__init__.py'],
[('gather_verify_arguments of Authorization, AccessToken, RefreshAccessToken, UserInfo and Service','oidc/*.py, service.py'),('IDT2REG, UI2REG','oidc/__init__.py, oidc/userinfo.py'),('Service._do_jwt','service.py')])

p('C05','An ID Token is only accepted with the nonce of its own session',
"If a verified ID Token arrives in an authorization response and the authorization request stored for that response's session carried a nonce, the response is accepted only if the ID Token carries the very same nonce. A verified ID Token in a response to a token request with an authorization code is accepted only if its nonce was issued for the session the token was requested for. When either check fails an exception is raised and nothing from the response is stored.",
['inputs','histories'],'every ID Token and every history of concurrent sessions',
'Tests try one wrong and one missing nonce; replay between any two sessions is the case that matters.',
['oidc/authorization.py','oidc/access_token.py','state_interface.py'],[('Authorization.post_parse_response','oidc/authorization.py'),('AccessToken.update_service_context','oidc/access_token.py'),('StateInterface.get_state_by_nonce','state_interface.py')])

p('C06','User info is only accepted for the subject of the ID Token',
"When an ID Token is held for a session, user info received for that session is returned and recorded only if its subject is identical to the subject of that ID Token; otherwise an exception is raised and nothing is recorded. Claims merged in later from aggregated or distributed sources can never change the subject, and user info is recorded under the session it was requested for.",
['inputs','histories'],'every user info response, every session content',
'Tests use one matching and one non-matching subject.',
['oidc/userinfo.py','oidc/__init__.py'],[('UserInfo.post_parse_response','oidc/userinfo.py'),('RP.fetch_distributed_claims','oidc/__init__.py')])

p('C07','Provider metadata is only accepted from the issuer that was asked',
"A provider metadata document naming an issuer is accepted only if that issuer equals the issuer used for the discovery, give or take one trailing slash, unless the client is explicitly configured to live with a mismatch. On a mismatch an exception is raised and the client's issuer, metadata, endpoints, keys and negotiated behaviour are as they were. The metadata is always requested from the well-known location below the issuer itself.",
['inputs','configurations'],'every metadata document, every issuer identifier',
'Tests have one mismatch; prefix, suffix, case and ordering variants are unbounded.',
['oauth2/provider_info_discovery.py','oidc/provider_info_discovery.py','defaults.py'],[('ProviderInfoDiscovery._verify_issuer, _update_service_context, get_endpoint','oauth2/provider_info_discovery.py')])

p('C08','Provider metadata is applied completely and consistently',
"Accepted provider metadata becomes the client's provider information, its issuer becomes the client's issuer (a client configured to live with a mismatch keeps the issuer it asked), and every service whose endpoint it names uses exactly the URL given under that name, whether the metadata was discovered or configured. The provider's keys are bound to the issuer of the metadata and taken from its key URL or, only when there is none, from the keys included.",
['inputs','configurations'],'every metadata document and every set of configured services',
'Tests use a few metadata documents and look at a few endpoints.',
['oauth2/provider_info_discovery.py','rp_handler.py','entity.py','service.py'],[('_update_service_context / _set_endpoints','oauth2/provider_info_discovery.py'),('RPHandler.do_provider_info','rp_handler.py'),('Entity.get_service_by_endpoint_name','entity.py'),('Service.get_endpoint','service.py')])

p('C09','Issuer discovery never trusts plain http or other link relations',
"The issuer taken from a WebFinger answer is the target of the first link that has the wanted relation, and links with other relations never influence it. A plain http target is rejected with an exception, before anything is recorded, unless the client is explicitly configured to allow http links. The WebFinger request itself is always sent over https, to the well-known WebFinger location.",
['inputs'],'every JRD and every resource identifier','Tests sample a few resources and links.',
['oidc/webfinger.py','oidc/__init__.py'],[('WebFinger.update_service_context / query','oidc/webfinger.py'),('WF_URL','oidc/__init__.py')])

p('C10','Unpredictable values come from a cryptographic random source',
"Every state, nonce, logout state, PKCE verifier, request file name, proof and assertion identifier, and every generated seed is drawn from the operating system's cryptographic random source, anew for every use. The number of random characters is the number asked for, each chosen independently from an alphabet of at least 62 characters, and is at least 20 wherever the value protects a session.",
['inputs','histories'],'all draws in all runs','Predictability cannot be observed in samples.',
['util.py','rp_handler.py','oidc/authorization.py','oidc/end_session.py','state_interface.py','oauth2/add_on/pkce.py','oauth2/add_on/dpop.py','client_auth.py','cookie.py','service_context.py','configure.py','oidc/utils.py'],
[('rndstr, unreserved','util.py'),('callers','*')])

p('C11','PKCE binds each code to a secret verifier of its own session',
"With PKCE switched on every authorization request carries the hash of a newly drawn verifier under the configured hash method, base64url-coded, together with the name of that method, and the verifier itself is recorded with that session and never sent in the authorization request. The token request for a session carries exactly the verifier recorded for that session. A method that is not supported makes the request fail instead of going out unprotected.",
['inputs','histories','configurations'],'every configuration of the add-on and every interleaving of sessions','Tests run one session with S256.',
['oauth2/add_on/pkce.py','defaults.py','util.py'],[('add_code_challenge, add_code_verifier, add_support','oauth2/add_on/pkce.py'),('CC_METHOD','defaults.py')])

p('C12','Client credentials travel only the way the chosen method prescribes',
"The client authentication method named for a request decides alone how credentials are sent: basic puts the percent-encoded client id and secret, joined by a colon and base64-coded, in the Authorization header and removes the secret from the message; post puts id and secret in the message and adds no header; bearer methods send the token only in the header or only in the body; JWT methods send an assertion and no secret. An unknown method name is an error, and the method used at the token endpoint is the one the client registered or was configured with.",
['inputs','configurations'],'every request, every method, every combination of supplied and stored credentials','Tests try each method with one request.',
['client_auth.py','service.py','rp_handler.py','oidc/access_token.py','oidc/refresh_access_token.py'],[('ClientAuthnMethod subclasses, CLIENT_AUTHN_METHOD, factory','client_auth.py'),('get_client_authn_method','rp_handler.py'),('get_authn_method','oidc/access_token.py')])

p('C13','Client assertions identify this client to this provider only',
"Every client assertion names the client's own id as both issuer and subject, is addressed to the token endpoint when used there and to the provider's issuer otherwise, carries a fresh identifier, an issue time of now and an expiry of now plus the lifetime. It is signed with a key that belongs to the client and fits the algorithm, where the algorithm is the one registered, configured or supported by the provider; when there is no such key an exception is raised instead of sending the request unsigned.",
['inputs','configurations'],'every key set, algorithm list and call','Tests build a few assertions with one key.',
['client_auth.py'],[('assertion_jwt','client_auth.py'),('JWSAuthnMethod','client_auth.py')])

p('C14','Nothing that has expired is treated as valid',
"Every service that stores a token response with a lifetime stores it with the absolute time it expires, computed from the current time and the lifetime in that response. A token is handed out as valid only if it has no expiry or its expiry lies in the future, a user is reported as authenticated only while the ID Token's expiry lies in the future, and a client secret counts as valid only while its expiry time is zero or not passed. When nothing valid is left an exception or a negative answer results.",
['inputs','histories'],'every response, every clock value','Tests do not move the clock across the boundaries.',
['rp_handler.py','oauth2/access_token.py','oauth2/authorization.py','oauth2/refresh_access_token.py','oauth2/client_credentials/cc_access_token.py','oauth2/client_credentials/cc_refresh_access_token.py','oidc/access_token.py','oidc/authorization.py','client_auth.py'],
[('update_service_context of the token issuing services','oauth2/*, oidc/*'),('RPHandler.get_valid_access_token, has_active_authentication','rp_handler.py'),('valid_service_context','client_auth.py')])

p('C15','Tokens used for a session are the most recent ones of that same session',
"A bearer token placed in a request is the one given explicitly with that request or, if none was given, one stored for the very session the request is made for; a token of another session is never used, and when no token is found the request fails. Where more than one response of a session holds the same item, the value from the refresh response wins over the token response, which wins over the authorization response, in every place such an item is looked up without regard to its validity. Storing a refresh response never removes what the original token response contained.",
['inputs','histories'],'every history of authorizations and refreshes over any number of sessions','Tests store one response and look it up.',
['client_auth.py','state_interface.py','oidc/userinfo.py','rp_handler.py','oidc/end_session.py','oidc/check_id.py','oidc/check_session.py','oauth2/refresh_access_token.py','oauth2/client_credentials/cc_refresh_access_token.py'],
[('find_token, BearerHeader, BearerBody','client_auth.py'),('StateInterface.multiple_extend_request_args, extend_request_args','state_interface.py'),('UserInfo.oidc_pre_construct','oidc/userinfo.py')])

p('C16','Session records never leak into each other and are removed completely',
"Storing an item changes only that item of the record under the given key and keeps the rest, and reading returns what was stored under exactly that key and item name or fails. The mappings from nonce, logout state, session id and subject live in name spaces that cannot collide with each other, and each leads back to the session it was stored for. Removing a session removes its record and all mappings that lead to it, and leaves every other session and its mappings alone.",
['inputs','histories'],'every sequence of store, map, look-up and remove operations','Tests exercise single operations on one or two sessions.',
['state_interface.py','rp_handler.py'],[('StateInterface','state_interface.py'),('KEY_PATTERN','state_interface.py'),('RPHandler.clear_session','rp_handler.py')])

p('C17','All HTTP traffic goes through the configured client, without redirects',
"Every request the library itself sends to a provider goes through the HTTP client it was configured with, and the configured TLS verification and client certificate settings are applied to it and handed to the key library for fetching keys. Unless configured otherwise, certificates are verified and the redirects of a request are not followed, and settings for one request never stick to later ones.",
['inputs','configurations'],'every request of every service','Tests mock the transport and so never see its settings.',
['http.py','oauth2/__init__.py','entity.py','util.py','rp_handler.py','oidc/__init__.py','oauth2/add_on/pushed_authorization.py'],[('HTTPLib.__call__','http.py'),('Client.get_response','oauth2/__init__.py'),('get_http_params','util.py')])

p('C18','Only a successful HTTP answer can change what the client knows',
"A service's stored state is updated only with a response that arrived with a 2xx status, was parsed and verified, and is not an error message; it is then stored for the session the request was made for. Redirects, 4xx and 5xx answers and transport failures never update anything: 5xx and unexpected answers raise an exception, and a 4xx answer yields an error message carrying the status code or an exception.",
['inputs','fault_sequences'],'every HTTP status, content type and body','Tests cover 200 and a few error codes per service.',
['oauth2/__init__.py'],[('Client.service_request, get_response, parse_request_response','oauth2/__init__.py')])

p('C19','Error answers end the flow',
"An error answer from the provider is never treated as a success: a finalized authentication returns the error with the state and neither requests tokens nor records a user, and fetching tokens, refreshing tokens, fetching user info, discovery and registration raise an exception. User info and tokens are returned from a finalized authentication only if none of the answers along the way was an error.",
['inputs','fault_sequences'],'an error answer at any step of any flow','Tests inject an error at one or two steps.',
['rp_handler.py','oauth2/__init__.py','util.py'],[('RPHandler.finalize, get_tokens, refresh_access_token, get_user_info','rp_handler.py'),('dynamic_provider_info_discovery','oauth2/__init__.py'),('load_registration_response','util.py')])

p('C20','A back-channel logout is only honoured when verified for this client',
"A back-channel logout request leads to a session only after its logout token was verified against this client's id as audience, the provider's issuer, the client's key jar and the registered ID Token signing algorithm (RS256 by default); any failing or negative verification is an exception. The session is then found from the verified token's own session id or subject, the session id taking precedence, and never from an unverified part of the request. When a session is completed its subject and, where the provider supports it, its session id are noted, so that a logout request finds it.",
['inputs'],'every logout request','Tests send a few well-formed tokens.',
['rp_handler.py'],[('backchannel_logout','rp_handler.py')])

p('C21','Cookie content is only accepted as it was created',
"The content and time stamp of a cookie are returned only if both are covered by a valid signature or by authenticated encryption under the keys they were created with; a genuine cookie yields exactly the value and kind it was created with, a missing, malformed or tampered one nothing or the dedicated exception. Signature comparison takes the same time wherever the difference is, encryption uses a new initialisation vector every time, and cookies are secure and http-only unless the caller says otherwise.",
['inputs'],'every cookie value','Tests tamper with one or two bytes.',
['cookie.py'],[('make_cookie, parse_cookie, cookie_signature, verify_cookie_signature','cookie.py'),('CookieDealer','cookie.py')])

p('C22','Each provider is served by a client of its own',
"A client is created with a private copy of its configuration, is registered under the issuer it actually talks to, and is reused, never replaced, when the same issuer or configuration is used again, so that its ongoing sessions survive. Handling requests and responses for one provider never modifies module-level or class-level tables, default configurations or anything else that clients of other providers share.",
['inputs','histories','configurations'],'every order in which providers are contacted','Tests use fresh handlers and rarely more than one provider.',
['rp_handler.py','client_auth.py','service_context.py'],[('RPHandler.init_client, client_setup','rp_handler.py'),('module and class level tables','*')])

p('C23','Callback and request URIs are specific to one provider',
"Generated redirect, request, logout and post-logout URIs lie below the client's base URL and contain a digest of the issuer, so that two providers never share one, and each kind of URI has a path of its own. The digest also depends on a secret seed of the client or on its base URL, and the issuer that belongs to a digest can be found again.",
['inputs','configurations'],'every issuer, base URL and set of requested URIs','Tests look at one issuer at a time.',
['oidc/registration.py','service_context.py'],[('create_callbacks, add_callbacks','oidc/registration.py'),('ServiceContext.generate_request_uris','service_context.py')])

p('C24','A token request only redeems what its own session was given',
"A token request for a session contains the authorization code received in that session, the redirect URI of that session's own authorization request, the client's id and the authorization code grant type; a refresh request contains the refresh token stored for that session. Parameters of a token request are taken from the caller and from the client's own authorization request, and no part of an authorization response other than the code can set them.",
['inputs','histories'],'every authorization response, any number of sessions','Tests redeem codes in a single session.',
['rp_handler.py','oauth2/access_token.py','oauth2/refresh_access_token.py','oauth2/client_credentials/cc_refresh_access_token.py'],[('RPHandler.get_tokens','rp_handler.py'),('AccessToken.oauth_pre_construct','oauth2/access_token.py'),('RefreshAccessToken.oauth_pre_construct','oauth2/refresh_access_token.py')])

p('C25','What the provider assigned at registration is what the client uses',
"After a registration the client's id, secret, secret expiry and registration access token are exactly those in the response, the whole response is kept, and the client authentication method at the token endpoint defaults to basic when the response names none. The client's own keys become available under its new id and the secret becomes a key of the client; the registration information is later read and authorized with the URI and token from that same response.",
['inputs'],'every registration response','Tests use one or two responses.',
['oidc/registration.py','oidc/read_registration.py'],[('Registration.update_service_context','oidc/registration.py'),('RegistrationRead','oidc/read_registration.py')])

p('C26','A registration request is consistent with what the client will do',
"The grant types registered are exactly those that the registered response types need, a key URL and a key set are never sent together, and values given by the caller are never replaced except the grant types, which follow from the response types. Every supported response type leads to a callback URI being registered that is later used for requests with that response type, and the callback chosen for a request depends on the response type and mode of that request. What is not given is registered as the behaviour that was settled on, or else as preferred.",
['inputs','configurations'],'every combination of response types and preferences','Tests register two or three combinations.',
['oidc/registration.py','oauth2/utils.py','rp_handler.py'],[('response_types_to_grant_types, rt2gt','oidc/registration.py'),('add_callbacks, add_callback_uris, add_jwks_uri_or_jwks','oidc/registration.py'),('pick_redirect_uri','oauth2/utils.py')])

p('C27','Request objects are signed, addressed and encrypted as asked for',
"A request object contains the whole authorization request, is issued by the client and addressed to the provider, and is signed with the client's own keys under the algorithm asked for or configured (RS256 by default); it is left unsigned only when that was asked for. It carries an expiry time exactly when one was asked for. When encryption is configured the object is encrypted with the provider's keys or the request fails, and it is never sent in the clear because something was missing. After it is in place only it and the required parameters remain outside it, and a request object passed by reference is written only to a file of the client's own directory tree that belongs to the published URL. Keys given for a request are the ones used for it.",
['inputs','configurations'],'every combination of signing, encryption and delivery options','Tests cover one signed object by value and by reference.',
['oidc/authorization.py','oidc/utils.py','service_context.py'],[('construct_request_parameter, oidc_post_construct, store_request_on_file','oidc/authorization.py'),('request_object_encryption, construct_request_uri','oidc/utils.py'),('filename_from_webname','service_context.py')])

p('C28','DPoP proofs are bound to one request and reveal no private key',
"Every DPoP proof carries the HTTP method and endpoint URL of the request it accompanies, a fresh identifier and the current time, and is signed with the client's DPoP key, which stays the same once it has been made, using the algorithm recorded with that key. The key in the proof's header is the public part only, the algorithm is one both configured by the client and supported by the provider, and the unsigned algorithm and wrong proof types are never accepted.",
['inputs','configurations'],'every request of every service with the add-on','Tests check one proof.',
['oauth2/add_on/dpop.py'],[('dpop_header, DPoPProof, add_support','oauth2/add_on/dpop.py')])

p('C29','Pushed authorization requests replace the request only on success',
"With pushed authorization requests the complete authorization request, either as is or as an object signed by the client, is sent to the provider's pushed-request endpoint. Only when that endpoint answers with success is the front-channel request replaced, and then by the reference the endpoint returned, plus the required parameters of the original request under the lax merge rule and nothing else; otherwise the original request is used unchanged.",
['inputs','configurations','fault_sequences'],'every request, answer and add-on configuration','Tests mock one success answer.',
['oauth2/add_on/pushed_authorization.py'],[('push_authorization, add_support','oauth2/add_on/pushed_authorization.py')])

p('C30','Data from outside is never executed or deserialised into objects',
"Configuration files in data formats, provider responses and session records are read only with parsers that produce plain data (a configuration written as a Python module is imported by the operator's choice); nothing received over the network reaches code execution, dynamic import, shell commands or object deserialisation. Names of classes and functions that are imported dynamically come from configuration only.",
['inputs','configurations'],'every input','The absence of a sink on all paths is not observable by tests.',
['util.py','logging.py','configure.py','service.py','service_factory.py','oauth2/add_on/__init__.py'],[('yaml.safe_load, json.loads','*'),('importer','util.py')])

p('C31','Request hooks all run, in order, and their results are used',
"For every request that is built from a message the argument hooks run before and the message hooks run after the message is built, each exactly once and in the order registered, each receiving the result of the previous one, and the message sent is the result of the last one. Hooks that a configuration names are registered after those the service has itself, in the order they are named. Extra header hooks likewise receive the headers built so far together with the method and endpoint of the request, and the client authentication step sees the finished message.",
['configurations','inputs'],'every set of services, add-ons and hooks','Tests use the default hooks of a few services.',
['service.py','oauth2/add_on/dpop.py','oauth2/add_on/pkce.py','oauth2/add_on/pushed_authorization.py'],[('do_pre_construct, do_post_construct, construct, get_headers, get_request_parameters','service.py')])

p('C32','Negotiated behaviour stays within what both sides support',
"After matching preferences against provider metadata, every negotiated value of a preference the provider has stated (or the standard defaults) its supported values for is one the client prefers and the provider supports. A single-valued preference that cannot be met makes the set-up fail instead of being used anyway, and preferences take effect in the client's order of preference; where neither the provider nor the standard says what is supported, the client's preference takes effect as it is.",
['inputs','configurations'],'every metadata document and preference set','Tests match two or three sets.',
['oidc/provider_info_discovery.py'],[('ProviderInfoDiscovery.match_preferences, PREFERENCE2PROVIDER','oidc/provider_info_discovery.py')])

p('C33','A logout request concerns exactly the session it was made for',
"A logout request carries as hint the unmodified ID Token stored for the session it was made for, and a logout state that is recorded as leading back to that session, newly drawn unless the caller supplied one. The user is sent back to the URI the caller supplied or else to one the client registered, and a client that cannot log out says so with an exception.",
['inputs','histories'],'every session and call','Tests log out one session.',
['oidc/end_session.py','rp_handler.py'],[('EndSession','oidc/end_session.py'),('RPHandler.logout','rp_handler.py')])

p('C34','Only claims attributed to a source are taken from that source',
"Of the claims delivered by an aggregated or distributed claim source only those that the user info response attributes to that very source are merged. Aggregated claims are merged only from a token unpacked with the client's key jar. The access token sent to a distributed claims endpoint is the one given for that source or supplied by the caller for that endpoint, never the one for the provider, and an endpoint answering with anything but success is an exception.",
['inputs'],'every user info response and source document','Tests use a single source.',
['oidc/userinfo.py','oidc/__init__.py'],[('UserInfo.post_parse_response','oidc/userinfo.py'),('RP.fetch_distributed_claims','oidc/__init__.py')])

p('C35','A request is put on the wire completely and in the right place',
"For GET and DELETE all parameters of a request, and nothing else, are added to the query of the endpoint URL, keeping the query it already has except where it names a parameter of the request, and for other methods the URL is the endpoint as is. For POST the body is the request in the serialisation asked for and the content type header names that serialisation. Headers produced by authentication and add-ons are always sent.",
['inputs'],'every message, endpoint URL and method','Tests serialise a few messages.',
['util.py','service.py','oauth2/__init__.py'],[('get_http_url, get_http_body','util.py'),('Service.get_request_parameters','service.py'),('Client.get_response','oauth2/__init__.py')])

p('C36','Explicit request arguments win over every default',
"A parameter given explicitly for a request, and a method, endpoint or authentication method given for it, is never overwritten by configuration, registration data or defaults; only the ID Token a logout or session check request hints at always comes from the session. A parameter that was not given is filled, in this order, from the client's own data, the service's configured arguments, the registration arguments, the service's defaults and the negotiated behaviour, and only parameters that the request type knows are filled in. Behaviour arguments given to the handler reach the discovery, registration, request and token fetching they are for.",
['inputs','configurations'],'every argument set and configuration','Tests combine a few sources.',
['service.py','oauth2/authorization.py','oidc/registration.py'],[('Service.gather_request_args','service.py')])

p('C37','Tokens and user data are taken from where the response type says',
"The access token and ID Token reported for a finished authentication come from the authorization response or the token endpoint as the response type of that session's request prescribes (for a hybrid flow the ID Token of the authorization response counts when the token endpoint returns none), and an ID Token is only ever reported in its verified form. The user data reported is the user info obtained for that session or, without a user info service or access token, the claims of the verified ID Token, and the subject and session id are mapped to that session for later logout.",
['inputs','configurations'],'every response type and response','Tests run the code flow and a few others.',
['rp_handler.py'],[('RPHandler.get_access_and_id_token, finalize, userinfo_in_id_token','rp_handler.py')])

p('C38','Everything a client has learned is part of what is persisted',
"All information a client acquires while running, that later requests depend on, is listed among what is dumped and loaded, for the client context, the session store and the services, and what is read back from a session record by kind is a declared part of the record. Nothing is listed that the object never has.",
['histories','crash_points'],'a dump and load after any history','Tests dump and load at two fixed points.',
['service_context.py','state_interface.py','service.py'],[('ServiceContext.parameter, StateInterface.parameter, Service.parameter','service_context.py, state_interface.py, service.py')])

p('C39','Private keys and secrets stay with the client',
"Keys exported for publication contain public parts only; private parts are exported only to be loaded into a key jar of the same client. The client signs only with keys of its own, keys received from a provider are bound only to that provider's identifier, and the client secret is bound only to the client itself.",
['inputs','configurations'],'every key set and configuration','Tests look at one exported key set.',
['rp_handler.py','service_context.py','oidc/registration.py','client_auth.py','oauth2/provider_info_discovery.py','oauth2/add_on/dpop.py'],[('KeyJar use','*')])

p('C40','A session leaves nothing behind outside its record',
"Starting, continuing or ending a session changes nothing but that session's records and the request and response at hand: nothing given for a request or contained in a response is kept in, or changes, the handler, the client's configuration and negotiated behaviour, or its services, so a later or concurrent session of the same client behaves as if the earlier one had not taken place. Only discovering, configuring and registering with a provider change these (and the key a client makes for its DPoP proofs when the first is needed).",
['histories','inputs'],'every history of sessions of one client','Tests start a session or two on a fresh client.',
['rp_handler.py','service.py','oauth2/authorization.py','oidc/authorization.py','client_auth.py','oauth2/add_on/dpop.py'],[('RPHandler, Service, Client and add-on functions','*')])

p('C41','A client works with exactly what it was configured with',
"A client has the identifier, secret, issuer, redirect URIs, provider metadata, behaviour, clock skew, preferences, policy and registration arguments of its configuration, whatever their values (zero, false and empty included), and falls back on a default only for what is not configured. Its services are made with the configuration each of them has, its add-ons with their own arguments, and it gets the keys, services, authentication methods, base URL and hash seed of its handler. A client secret and keys that are configured are keys the client can use. The domain and port that are given, or else those that are configured, take the place of their placeholders in every URI of a configuration.",
['inputs'],'every configuration','Tests use a few complete configurations.',
['service_context.py','rp_handler.py','entity.py','oauth2/__init__.py','oidc/__init__.py','service.py','configure.py','oauth2/add_on/__init__.py'],[('ServiceContext.__init__','service_context.py'),('RPHandler.__init__, init_client','rp_handler.py'),('Entity.__init__','entity.py'),('init_services','service.py'),('do_add_ons','oauth2/add_on/__init__.py')])

p('C42','Every accepted answer is on record in its session',
"An authorization response, token response, refresh response or user info that has been accepted for a session is put on the record of that session as a whole (at most its time of expiry is added), once, and under the kind by which it is looked up later; user info is recorded as the configured processing steps left it. Putting an item on record keeps everything else on that record and replaces an earlier item of the same kind.",
['inputs','histories'],'every answer, kind of item and earlier content of the record','Tests look at one flow with complete answers.',
['oauth2/authorization.py','oidc/authorization.py','oauth2/access_token.py','oidc/access_token.py','oauth2/refresh_access_token.py','oidc/userinfo.py','rp_handler.py','state_interface.py'],[('Service.update_service_context','*'),('UserInfo.post_parse_response','oidc/userinfo.py'),('RPHandler.finalize_auth','rp_handler.py'),('StateInterface.store_item','state_interface.py')])

p('C43','A response is read as what it says it is',
"An answer is read in the format its content type names, and in the format that is expected only where the content type says nothing; the whole of it is read. What says it is a signed or encrypted object is unpacked as such and its signature is checked. A response that is a URL is read from its query, or from its fragment when it has no query.",
['inputs'],'every content type, format and URL','Tests read a few answers in the format that is expected.',
['util.py','service.py','oauth2/__init__.py'],[('get_deserialization_method','util.py'),('Service.parse_response, get_urlinfo, _do_response, _do_jwt','service.py'),('Client.parse_request_response','oauth2/__init__.py')])

# not applicable
p('C90','Concurrent use of one handler is safe',
"Any number of threads may start and finish authentications on one handler at the same time with the same results as some sequential order.",
['schedules'],'every schedule','Tests are single threaded.',['rp_handler.py','state_interface.py'],[('unsynchronised dictionaries','rp_handler.py, state_interface.py')])
p('C91','A dumped and reloaded client behaves like the original',
"Dumping a client at any point and loading the dump into a new client yields a client that answers every later call the same way.",
['histories','crash_points'],'every history before and after the dump','Tests reload at two fixed points.',['service_context.py','state_interface.py','service.py'],[('ImpExp dump/load','service_context.py')])
p('C92','Signature, encryption and token claim checks are themselves correct',
"A token is accepted by the message library if and only if its signature, issuer, audience, expiry and hash claims are right.",
['inputs'],'every token','Samples only.',['service.py'],[('oidcmsg and cryptojwt','dependencies')])
p('C93','Every flow terminates when the provider stalls',
"Each call that contacts a provider returns or fails within a bounded time whatever the provider does.",
['fault_sequences'],'every provider behaviour','Transport is mocked.',['http.py'],[('HTTPLib.__call__','http.py')])
p('C94','WebFinger normalisation follows the standard for every identifier',
"For every user identifier the resource and host used for WebFinger are those that the normalisation steps of the standard prescribe.",
['inputs'],'every string','Tests have a table of examples.',['oidc/webfinger.py'],[('WebFinger.query','oidc/webfinger.py')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
