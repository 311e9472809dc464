p('P01','ClientHello inspection is total, exact and non-destructive',
 "For every byte stream a client can send, inspecting the first TLS record terminates without a crash and either reports an error or reports exactly the server name and the ALPN protocol list carried by the ClientHello. A truncated, oversized or non-ClientHello stream, or a hello that does not fit in its record, is an error, never a guess. The inspected bytes remain readable, in order and unchanged, by whoever handles the connection next.",
 ['inputs'],"all byte streams (bounded length), all fragmentations and all short reads",
 "The tests feed a handful of hellos produced by crypto/tls; malformed length fields, empty records and odd fragmentations are never sent.",
 ['proxy/hello.go','proxy/internal/netw/netw.go'],[('peekClientHello','proxy/hello.go'),('Conn.Peek','proxy/internal/netw/netw.go')],['result of the inspection','bytes read afterwards'])
p('P02','A connection is only ever routed to a backend configured for its name',
 "A TLS connection for a server name and an ordered ALPN offer is handled by the backend configured for that name and the first offered protocol that matches one, else by the first backend configured for that name. It is never handled by a backend that does not list that server name, and a connection for an unknown name, or for a backend that was removed or shut down, is refused.",
 ['inputs','configurations'],"all server names, ALPN lists and backend configurations (bounded)",
 "The tests use a few fixed backends with one or two protocols each.",
 ['proxy/proxy.go','proxy/config.go'],[('backend selection','proxy/proxy.go'),('Reconfigure','proxy/proxy.go')],['backend chosen for the connection'])
p('P03','IP allow and deny lists are enforced before a connection is served',
 "A peer whose IP address lies in one of the backend's deny networks is refused; when an allow list is set, a peer whose address lies in none of its networks is refused; every other peer is accepted. An IPv4 address and its IPv4-mapped IPv6 form are the same address. In every mode the decision is taken before any upstream is dialled or any byte is relayed and, on TCP, before any TLS handshake is answered (automatic-certificate TLS-ALPN challenges, which reach no backend, are exempt).",
 ['inputs','configurations'],"all peer addresses, all allow/deny lists (bounded number of networks), all backend modes",
 "Tests try a few loopback addresses against a few networks.",
 ['proxy/backend.go','proxy/proxy.go','proxy/quic.go'],[('checkIP','proxy/backend.go'),('handleConnection','proxy/proxy.go'),('handleQUICConnection','proxy/quic.go')])
p('P04','Client-certificate access control lists decide exactly who gets in',
 "When a backend requires client certificates with an access list, a connection is authorised if and only if its certificate's subject, or one of its DNS, e-mail or URI names, equals the corresponding typed list entry (an entry without a type is a subject). An empty list refuses everyone, an absent list accepts every valid certificate, and a connection without a certificate is refused.",
 ['inputs','configurations'],"all certificate identities and all access lists (bounded)",
 "Tests try a couple of certificates against fixed lists.",
 ['proxy/backend.go','proxy/proxy.go'],[('authorize','proxy/backend.go'),('authorizeTLSConnection','proxy/proxy.go')])
p('P05','Re-authorisation after a configuration change is safe and complete',
 "After the configuration is replaced, every open connection is checked against the new rules and closed unless it is still allowed: its backend still exists for its name and protocol, its address still passes the IP rules, and its client certificate still satisfies the access rules. Established connections that still comply stay open (one whose handshake is under way may be closed; a change of the client CA pool alone does not re-verify certificates). Whatever state an open connection is in, the check never crashes the process.",
 ['histories','configurations'],"all pairs of old and new configurations and all states of an open connection (bounded)",
 "Tests reload at most one simple configuration while one connection is open.",
 ['proxy/proxy.go'],[('reAuthorize','proxy/proxy.go'),('Reconfigure','proxy/proxy.go')])
p('P06','Static file serving never leaves the document root',
 "For every request path, a static backend only opens files below the configured document root, never a file or directory whose name starts with a dot, never a path containing a backslash, and never lists a directory; anything else is answered with an error or a redirect to the canonical path on the same host.",
 ['inputs'],"all request paths (bounded length)",
 "Tests try a fixed list of paths.",
 ['proxy/backend-http.go','proxy/util.go'],[('static file handler','proxy/backend-http.go'),('pathClean','proxy/util.go')])
p('P07','SSO protection covers every request for a protected path',
 "On a backend with single sign-on, a request whose path, raw or cleaned, is covered by the protected path list reaches the backend, a static file or a protected built-in handler only with a valid, unexpired identity that passes the access list; otherwise it gets a login redirect or an error. Only the designated public endpoints bypass it, with exactly their configured path.",
 ['inputs','configurations'],"all request paths and methods, identities, path lists and access lists (bounded)",
 "Tests try a few paths with a few users.",
 ['proxy/backend-sso.go','proxy/backend-http.go'],[('enforceSSOPolicy','proxy/backend-sso.go'),('localHandlersAndAuthz','proxy/backend-http.go'),('userAuthentication','proxy/backend-http.go')])
p('P08','Clients cannot forge the identity headers that backends trust',
 "In a request forwarded upstream, the user-id header is present only when the proxy authenticated the user and then carries exactly that identity; the client-certificate header describes only the verified certificate of the connection; the forwarded-for header carries only the real peer address; configured extra headers carry their configured values. Nothing a client puts in the request, in any letter case, multiplicity or hop-by-hop declaration, changes that.",
 ['inputs','configurations'],"all client request headers (bounded), all identities and header configurations",
 "Tests send well-formed requests; none tries to smuggle or suppress a trusted header.",
 ['proxy/backend-http.go','proxy/xfcc.go'],[('reverse proxy director','proxy/backend-http.go'),('addXFCCHeader','proxy/xfcc.go')])
p('P09','Requests for a host the connection was not opened for are refused',
 "An HTTP request is forwarded to an upstream only if the request's host, ignoring letter case, port and brackets, is one of the server names of the backend that the connection belongs to; any other request that the proxy does not answer itself gets 421 Misdirected Request and reaches no upstream.",
 ['inputs','configurations'],"all Host values, all server-name lists (bounded)",
 "Tests use matching hosts.",
 ['proxy/backend-http.go'],[('host check','proxy/backend-http.go')])
p('P10','Path overrides select the configured upstream and never mix connections',
 "A request is forwarded to the upstream of the first path override whose path list covers the request path, and to the backend's main upstream when none does. Two requests share a pooled upstream connection only if they use the same backend, the same override and, when a PROXY header is in use, the same client connection.",
 ['inputs','configurations','histories'],"all request paths and override lists, all pairs of requests",
 "Tests use one override with one path.",
 ['proxy/backend-http.go','proxy/backend.go'],[('path override choice','proxy/backend-http.go'),('upstream pool key','proxy/backend-http.go')])
p('P11','Upstream dialling is round-robin with complete failover',
 "A connection attempt tries the configured upstream addresses starting at the next one in turn, each at most once, until one answers, and fails only after every address failed. The turn stays valid and fair for every number of addresses and every interleaving, and each attempt uses the addresses, TLS settings and timeout of the selected backend or override.",
 ['fault_sequences','histories'],"all outcomes of every dial attempt, all starting positions, all address counts (bounded)",
 "Tests use one or two upstreams that are up.",
 ['proxy/backend.go'],[('dial','proxy/backend.go')],None,[('next','round-robin position','proxy/backend.go')])
p('P12','Relayed bytes arrive complete, in order, and half-close is propagated',
 "Between client and upstream, each direction delivers exactly the bytes the other side sent, in order, without loss, duplication or mixing of directions, whatever the sizes of reads and writes. When one side finishes sending, the other side sees end-of-stream while the opposite direction keeps flowing (unless the configuration says to close), and both connections are closed when the relay ends.",
 ['inputs','schedules','fault_sequences'],"all chunkings, short reads and writes, error points and interleavings (bounded)",
 "Tests relay one short message in each direction.",
 ['proxy/backend.go','proxy/proxy.go'],[('bridgeConns','proxy/backend.go'),('forward','proxy/backend.go')])
p('P13','Connection accounting balances and limits are enforced',
 "Every accepted connection is counted when it opens and uncounted exactly once when it ends, on every path including errors, panics and timeouts, so the number of tracked connections and each backend's in-flight count return to zero when nothing is open. A connection accepted above the configured maximum is closed without being served.",
 ['histories','fault_sequences'],"all exit paths of connection handling",
 "Tests look at success paths and never assert the counters.",
 ['proxy/proxy.go','proxy/conntracker.go'],[('handleConnection','proxy/proxy.go'),('connTracker','proxy/conntracker.go')])
p('P14','Only tokens issued by this proxy for this purpose authenticate a user',
 "A session cookie or bearer token authenticates a request only if it was signed by this proxy, has not expired, was issued by the identity provider the backend uses, and was issued for the purpose it is presented for and for the host it is presented to. The identity and expiry recorded in it are the ones established at login; extra claims cannot override them.",
 ['inputs','histories'],"all tokens this proxy can issue, all presentations (bounded)",
 "Tests present the right token in the right place.",
 ['proxy/internal/cookiemanager/cookiemanager.go','proxy/internal/tokenmanager/tokenmanager.go'],[('ValidateAuthTokenCookie','proxy/internal/cookiemanager/cookiemanager.go'),('ValidateAuthorizationHeader','proxy/internal/cookiemanager/cookiemanager.go'),('SetAuthTokenCookie','proxy/internal/cookiemanager/cookiemanager.go')])
p('P15','Login-redirect tokens are bound to the browser session that got them',
 "A redirect token is only honoured with the session identifier cookie it was created with, within its validity, and then yields exactly the URL it was created for; otherwise it is rejected.",
 ['inputs','histories'],"all sessions, URLs and times",
 "Tests check one session and one URL.",
 ['proxy/internal/tokenmanager/urltoken.go'],[('URLToken','proxy/internal/tokenmanager/urltoken.go'),('ValidateURLToken','proxy/internal/tokenmanager/urltoken.go')])
p('P16','Signing-key rotation keeps every issued token verifiable',
 "After every rotation step, at any time and after any downtime, there is a usable signing key; a token signed before expires no later than its key is removed, so it stays verifiable for its lifetime; keys not yet old enough are not used while an older valid key exists; and keys past their retention are eventually dropped. Keys used for signing are durably stored first.",
 ['histories','crash_points'],"all elapsed times between rotation steps, all stored key ages, storage failures",
 "The test rotates once with a fake clock.",
 ['proxy/internal/tokenmanager/tokenmanager.go'],[('rotateKeys','proxy/internal/tokenmanager/tokenmanager.go')])
p('P17','The proxy\'s own session cookies never reach an upstream server',
 "A request forwarded upstream after single sign-on carries neither the proxy's authentication cookie nor its session cookie, and carries every other cookie unchanged and in order.",
 ['inputs'],"all Cookie headers (bounded)",
 "Tests send one cookie.",
 ['proxy/internal/cookiemanager/cookiemanager.go','proxy/backend-http.go'],[('FilterOutAuthTokenCookie','proxy/internal/cookiemanager/cookiemanager.go')])
p('P18','OpenID provider codes and tokens are single-use and bound to the client',
 "The built-in OpenID provider exchanges an authorization code at most once, only for the client it was issued to with that client's secret and a registered redirect address, and only before it expires; an access token returns user information at most once. The user is only redirected to a registered address of a known client, and the identity released is limited to the requested scopes.",
 ['inputs','histories'],"all request parameters, all sequences of requests (bounded)",
 "The test runs the happy path.",
 ['proxy/internal/oidc/server.go'],[('ServeAuthorization','proxy/internal/oidc/server.go'),('ServeToken','proxy/internal/oidc/server.go')])
p('P19','A login callback only succeeds for the login the browser started',
 "The login callback accepts an identity only if the callback's state was issued by this proxy no longer than its lifetime ago, has not been used, matches the browser's nonce cookie, and the identity token was issued for that same login (a token that carries a nonce carries this login's); an e-mail the provider says is not verified is refused, and the e-mail is in the configured domain when one is set. Every other callback sets no session.",
 ['inputs','histories'],"all callbacks and all sequences of logins (bounded)",
 "Tests run the happy path.",
 ['proxy/internal/oidc/client.go'],[('HandleCallback','proxy/internal/oidc/client.go')])
p('P20','A revoked certificate is reported revoked everywhere, at once and for good',
 "Once revocation of a certificate has been acknowledged, the proxy's own checks, every OCSP answer and every revocation list served from then on report it as revoked; certificates that were not revoked are not reported revoked; unknown serial numbers are not reported good. Revocation lists and OCSP answers are never served past their validity, and are signed with a certificate of the authority that is valid for it; a well-formed OCSP request, by GET or POST, is answered. A failed update of the store changes none of that.",
 ['histories','inputs'],"all sequences of issue/revoke/query with any times between (bounded)",
 "The test revokes one certificate once.",
 ['proxy/internal/pki/pki.go'],[('RevokeCertificate','proxy/internal/pki/pki.go'),('IsRevoked','proxy/internal/pki/pki.go'),('RevocationList','proxy/internal/pki/pki.go'),('OCSPResponse','proxy/internal/pki/pki.go')])
p('P21','Certificate self-service is limited to one\'s own identity',
 "Through the certificate web interface an authenticated user can only obtain client certificates that name their own e-mail and nobody else (certificates for DNS names are for servers only), for a key they hold, and can only revoke their own certificates, unless they are an administrator and act as one; only their own certificates are listed unless they ask for all; unauthenticated requests and requests without the anti-forgery header change nothing.",
 ['inputs'],"all users, methods, parameters and certificate owners",
 "Tests cover one user's happy path.",
 ['proxy/internal/pki/http.go','proxy/internal/pki/pki.go'],[('ServeCertificateManagement','proxy/internal/pki/http.go')])
p('P22','SSH certificates are only issued to the authenticated user',
 "The SSH certificate endpoint issues a user certificate only for an authenticated, protected POST request, naming exactly the authenticated user's principals, for the submitted plain public key, and valid for no longer than the configured lifetime.",
 ['inputs'],"all requests, identities and keys",
 "Tests cover one happy path.",
 ['proxy/internal/sshca/sshca.go'],[('ServeCertificate','proxy/internal/sshca/sshca.go')])
p('P23','A passkey login needs a fresh challenge and the owner\'s registered key',
 "A passkey ceremony succeeds only with a challenge this proxy issued for that ceremony, unexpired and not used before, with authenticator data for this relying party with user presence and verification, and a signature by a key registered to the user who is logged in. A registration only binds a key to the user it was started for, and a key that was reported deleted logs nobody in, whatever fails and restarts in between.",
 ['inputs','histories'],"all authenticator responses and ceremony sequences (bounded)",
 "Tests use one software authenticator that behaves.",
 ['proxy/internal/passkeys/manager.go','proxy/internal/passkeys/webauthn.go'],[('processAssertion','proxy/internal/passkeys/manager.go'),('processAttestation','proxy/internal/passkeys/manager.go')])
p('P24','Authenticator data is parsed totally and exactly',
 "For every byte string, decoding authenticator data terminates without a crash and either fails or returns exactly the relying-party hash, flags, counter and attested credential laid out in it.",
 ['inputs'],"all byte strings (bounded length)",
 "Tests decode data produced by the same code base.",
 ['proxy/internal/passkeys/webauthn.go'],[('parseAuthenticatorData','proxy/internal/passkeys/webauthn.go')])
p('P25','OCSP checking of certificates fails closed',
 "When a peer certificate names OCSP responders, a connection is accepted only if a currently valid, correctly signed response for that very certificate says every checked certificate is good, whether stapled, cached or fetched; a revoked, unknown, stale or unobtainable status is a failure, and a cached answer is never used past its validity. A chain for which everybody answers that it is good is accepted. Certificates that name no responder never make the check crash.",
 ['fault_sequences','histories'],"all stapled/cached/fetched response outcomes and times",
 "Only exercised incidentally by tests.",
 ['proxy/internal/ocspcache/ocsp.go'],[('VerifyChains','proxy/internal/ocspcache/ocsp.go')])
p('P26','Transfer counters report exactly what was transferred',
 "A connection's byte counts equal the number of bytes actually read from and written to it, whatever mix of peeks, short reads, short writes and errors; windowed rates never go negative or count a byte twice; per-server totals are the sums over its connections.",
 ['inputs','histories'],"all operation sequences (bounded), all elapsed times",
 "Tests use fixed sequences.",
 ['proxy/internal/netw/netw.go','proxy/internal/counter/counter.go'],[('Conn.Read/Write/Peek','proxy/internal/netw/netw.go'),('Counter','proxy/internal/counter/counter.go')])
p('P27','The forwarded client-certificate header cannot be injected into',
 "The X-Forwarded-Client-Cert header consists of exactly the configured fields of the verified certificate; whatever characters the certificate's subject or URI contain, parsing the header yields exactly those values (the subject in slash-separated form) and no other field or element.",
 ['inputs','configurations'],"all subjects and names (bounded), all field selections",
 "Tests use well-behaved names.",
 ['proxy/xfcc.go'],[('addXFCCHeader','proxy/xfcc.go')])
p('P28','Unsafe or contradictory configurations are rejected, valid ones normalised',
 "Configuration checking never crashes, rejects every configuration that breaks a documented rule (duplicate names of providers, PKIs, SSH authorities or bandwidth groups; the same server name and protocol twice; references to providers, PKIs or groups that are not there; a passkey provider naming itself; missing or forbidden addresses; a document root together with addresses; invalid modes; malformed networks; PROXY versions other than v1 and v2; empty list entries; out-of-range values), and leaves an accepted configuration unchanged in meaning when checked again.",
 ['configurations'],"all configurations over the checked fields (bounded)",
 "Tests check a few good and bad files.",
 ['proxy/config.go'],[('Check','proxy/config.go')])
p('P29','PROXY-protocol headers are exact and only trusted from trusted peers',
 "The client address used for policy is taken from a PROXY header only when the connection comes from a configured trusted network, otherwise it is the real peer; when a header is sent upstream it is the first thing sent and carries the client's real addresses.",
 ['inputs','configurations'],"all peer addresses and trusted networks",
 "Tests use loopback only.",
 ['proxy/proxy.go','proxy/backend.go'],[('acceptProxyHeader policy','proxy/proxy.go'),('dial header','proxy/backend.go')])
p('P30','Forwarding loops are detected',
 "A request that already passed through this proxy instance is answered with a loop error and not forwarded again; other requests are forwarded with this proxy's marker appended to whatever markers they carried.",
 ['inputs'],"all Via headers (bounded)",
 "Not tested beyond one case.",
 ['proxy/backend-http.go'],[('Via handling','proxy/backend-http.go')])
p('P31','Log filters follow the documented precedence',
 "Whether connections, requests and errors are logged for a backend is decided by the backend's own filter when set, else by the global filter of the current configuration, else enabled; request logging never suppresses errors; and whatever clients put into paths, names, certificates and identities stays within one printable line of the log.",
 ['inputs','configurations'],"all combinations of filter settings and kinds of messages; all paths and identities (bounded)",
 "Not tested.",
 ['proxy/logging.go','proxy/proxy.go'],[('log filter','proxy/logging.go')])
p('P32','Bandwidth limits apply to exactly the backends that name them',
 "Every backend that names a configured bandwidth-limit group has its connections limited in both directions by that group's shared limiters with the configured rates, before and after a reload; other backends are not limited.",
 ['configurations','histories'],"all group names, rates and reload sequences (bounded)",
 "One test with one lower-case group.",
 ['proxy/proxy.go','proxy/config.go'],[('Reconfigure','proxy/proxy.go')])
p('P33','Only certificates for served names are kept, only unused ones revoked',
 "Automatic certificates are only requested for configured server names, and automatic revocation, when it is on, only touches unexpired certificates none of whose names is configured when the check is made, once each, with their own key; certificates that are still used, and entries of the store that are not certificates, are kept. When the revocation of all certificates is requested, each unexpired one is revoked once, for the given reason.",
 ['configurations'],"all certificate name sets and configurations (bounded)",
 "Needs a live ACME server, so it is not tested.",
 ['proxy/revoke.go','proxy/proxy.go'],[('revokeUnusedCertificates','proxy/revoke.go')])
p('P34','SAML assertions are only accepted when validly signed and current',
 "A SAML response logs a user in only if it is validly signed by the configured identity provider, addressed to this proxy, within its validity window (NotBefore inclusive, NotOnOrAfter exclusive, for the assertion and for its subject confirmation) and answering a request this proxy made, each request being answered at most once. Exactly the configured certificates are trusted, and a malformed configuration is reported rather than crashing.",
 ['inputs','histories'],"all SAML responses",
 "Not tested.",
 ['proxy/internal/saml/saml.go'],[('HandleCallback','proxy/internal/saml/saml.go')])
p('P35','Relying parties get exact keys, discovery documents and configured claims',
 "The published key set describes every current signing key, and nothing else, exactly and in the standard form; the discovery document names the addresses, issuer and algorithms that are really served; tokens signed with a TPM's key are encoded properly; and the claims in identity tokens and user information are what the configured rewrite rules, applied in order, make of the user's, for exactly the configured clients.",
 ['inputs','configurations'],"all keys, users, rules and configurations of a provider",
 "The tests exercise one set of random keys, one in 128 of which shows a leading zero, and no chain of rules.",
 ['proxy/internal/tokenmanager/tokenmanager.go','proxy/internal/oidc/server.go','proxy/proxy.go'],[('ServeJWKS','proxy/internal/tokenmanager/tokenmanager.go'),('ServeConfig','proxy/internal/oidc/server.go'),('applyRewriteRules','proxy/internal/oidc/server.go')])
p('P36','WebSocket endpoints bridge exactly the binary messages to their own server',
 "A WebSocket endpoint opens a connection to its configured address for proper upgrade requests from pages of the same host only; its server receives exactly the content of the client's binary messages in order, however they are fragmented or interleaved with other frames, and the client exactly what the server sends; pings are answered; a client that no longer answers is disconnected within a minute and one that does is not; and when either side ends, both connections are closed and no longer tracked, whatever the schedule, without data races.",
 ['inputs','schedules','configurations'],"all message sequences, fragmentations, endings and schedules (bounded)",
 "Not tested.",
 ['proxy/websocket.go'],[('webSocketHandler','proxy/websocket.go')])

p('P37',"The proxy's own redirects and pages cannot be turned against a user",
 "A redirect that the proxy makes on its own account stays on the site that was asked for and leads to the address that was asked for, whatever the path, the query, the method and the login state; and the pages that the proxy shows (permission denied, login status, logout, certificates, passkeys) have the same structure and the same code whatever the users, the authors of links and the holders of certificates put into names, addresses, subjects and tokens: all of it appears as text only, and links lead where the proxy means them to.",
 ['inputs','configurations'],"all paths, queries, names and subjects (bounded)",
 "Tests use harmless paths and names and never look at the pages.",
 ['proxy/backend-sso.go','proxy/backend-http.go','proxy/internal/passkeys/manager.go','proxy/internal/pki/http.go'],[('checkCookies','proxy/backend-sso.go'),('serveSSOStatus','proxy/backend-sso.go'),('redirectPermanently','proxy/backend-http.go'),('ServeCertificateManagement','proxy/internal/pki/http.go')])
p('P38','The status page shows every connection, no secrets, and is in no one\'s way',
 "The status page shows each open connection exactly once, with its ends, server and certificate, until it is closed, and the number of every event; it shows neither client secrets nor lets names, events and e-mail addresses be anything but text; looking at it changes nothing, and it can be looked at in every state of every connection, at any time and while anything else happens, without data races. A client that keeps silent holds up neither reloads nor other clients, whoever looks at the page, and does not stay connected when there are too many connections.",
 ['inputs','schedules','configurations'],"all connection states, texts, secrets and schedules (bounded)",
 "Not tested.",
 ['proxy/metrics.go','proxy/proxy.go','proxy/conntracker.go'],[('metricsHandler','proxy/metrics.go'),('handleConnection','proxy/proxy.go'),('connTracker','proxy/conntracker.go')])

p('P39','Stopping and shutting down end everything, and only in time',
 "After Stop, or the end of the context, whatever state connections are in: nothing listens any more, all connections of clients and to servers are closed and no longer tracked, the web servers and the background loops have ended, and connections that come at that moment are closed, too; doing it again is harmless. Shutdown stops listening at once, breaks off no request that is being served until its context ends, returns as soon as nothing is left to wait for, whatever the schedule, and then stops.",
 ['schedules','histories'],"all states of connections, all schedules (bounded)",
 "The tests stop idle proxies; the schedules matter.",
 ['proxy/proxy.go','proxy/backend.go','proxy/http.go'],[('Stop','proxy/proxy.go'),('Shutdown','proxy/proxy.go'),('close','proxy/backend.go')])

p('P40','Built-in endpoints answer only at their addresses, behind the configured login',
 "Every endpoint of the proxy itself (login, status, callbacks of identity providers, passkeys, OpenID provider, keys, certificate and SSH authorities, WebSockets, status page) answers at its configured address and at no other name or path; on a backend with a login policy it answers only users of that backend's own provider, except those that are part of logging in or public by design; other requests are passed on; a login is sent to the backend's own provider; and the access list that passkey registration uses is that of the backend that serves it.",
 ['inputs','configurations'],"all paths near the endpoints, names, tokens and policies (bounded)",
 "Tests request a few endpoints at their proper addresses.",
 ['proxy/proxy.go','proxy/backend-http.go','proxy/backend-sso.go'],[('Reconfigure','proxy/proxy.go'),('handleLocalEndpointsAndAuthorize','proxy/backend-http.go'),('serveLogin','proxy/backend-sso.go')])
p('P41','A configuration takes effect entirely or not at all',
 "When a new configuration is refused, at whatever step, the proxy goes on exactly as before (backends, authorities, bandwidth limits and their rates, servers, connections), and leaves nothing running; when it is accepted, every setting in it is in effect, unless it equals the current one, in which case nothing is disturbed; the caller's configuration is neither modified nor shared; concurrent reloads end with one of the configurations, never a mixture; and a configuration file means exactly what it says: misspelt and repeated keys are refused.",
 ['configurations','histories','schedules'],"all single changes and failing steps of one rich configuration, all schedules of two reloads (bounded)",
 "Tests reload one valid configuration.",
 ['proxy/proxy.go','proxy/config.go'],[('Reconfigure','proxy/proxy.go'),('ReadConfig','proxy/config.go')])
p('P42','Clients get the certificate configured for their name',
 "A client is shown the certificate of the first tlsCertificates entry that lists its server name, exactly, by wildcard or in internationalized form; if that cannot be read, the connection is refused rather than served with another certificate; automatic certificates are used for all other names, and only when the terms of service are accepted; only good OCSP responses are stapled, and a certificate without one is still served; a reload changes the choice for the connections that follow.",
 ['inputs','configurations'],"all server names and lists of certificates (bounded)",
 "Tests use one certificate for all names.",
 ['proxy/proxy.go','proxy/config.go'],[('baseTLSConfig','proxy/proxy.go'),('getCertFromConfig','proxy/proxy.go')])
