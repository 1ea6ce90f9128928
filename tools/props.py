# The properties: id, title, statement, quantifier kinds, quantifier text, why tests cannot, files, mechanism [(name, where)].
P = []
def p(id, title, st, over, q, why, files, mech, rule_note):
    P.append(dict(id=id, title=title, statement=st, quantifier={"over": over, "text": q}, why_tests_cant=why,
        anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech]}, note=rule_note))

p("C01", "Token access is granted only after verification and a policy allow",
  "A token API or an HTTP token verifier returns success only when the presented token passed its type's verification and, unless policies are disabled, the policy check allowed the token's own domain and roles on the translated action and the prefixed, translated resource; the only other source of success is the stored success for the same request. A request is refused only because the action or resource is empty, the token type is disabled, or verification, translation or the policy check failed. The verify-only and the principal-returning variant of an API decide alike.",
  ["inputs", "configurations", "histories"],
  "every token, certificate, action, resource, query, configuration of the authorizer and content of the verification cache",
  "The tests feed a handful of tokens to mocked processors; they do not look at every combination of cache state, disabled parts, translator and error, and a new path to success is invisible to them.",
  ["authorizerd.go"], [("token authorization", "authority.authorize, Verify*/Authorize* methods, HTTP verifiers built by initAuthorizers")],
  "Every exit class of every token API is examined; the grant must carry the nil-error facts of processor, translator and policy daemon with the right arguments.")
p("C02", "Different requests never share a cached verification result",
  "Every token request uses one verification cache key, made of the token, the client certificate, the action, the resource and (when a translator is configured) the query, joined so that two requests that differ in one of them never have the same key. A cached result is used only for a request with the same kind of token.",
  ["inputs", "histories"],
  "every pair of requests over all strings, including strings that hold the delimiter or its escape",
  "The tests compare a few keys of plain strings; collisions need delimiter characters at the right places or parts that are left out.",
  ["authorizerd.go"], [("cache key", "authority.authorize")],
  "The key term of every path is parsed: each component is delimited or injectively escaped, all components that influence the decision occur, and equal shapes mean equal component lists.")
p("C03", "Only successful verifications are cached, unchanged and for the configured time",
  "The verification cache is written exactly once by every request that is granted after verification, with the principal that is returned, under the key that was looked up and with the configured lifetime, after every check has passed. A denied request and a cache hit never write it, and nothing outside token verification writes it.",
  ["inputs", "histories", "configurations"],
  "every path of every token request",
  "The tests look at the cache after a few successes; that no refusal path stores anything, or that a hit does not prolong an entry, is a statement about all paths.",
  ["authorizerd.go"], [("cache write", "authority.authorize")],
  "Typestate over the events of each exit: cache writes after all decisions, only on granting exits, with the returned object; who-writes census over the module.")
p("C04", "The returned principal says what the token said",
  "On every granted token request the returned principal's name, roles, domain, issue time and expiry time are those of the verified token, its authorized roles are exactly what the policy check returned (none when policies are disabled), and for access tokens its client ID is the token's. A role token never gives an access token principal or the reverse.",
  ["inputs", "configurations"],
  "every granting path of both token types",
  "The tests check some accessors for some tokens; a swapped or forgotten field on one configuration is not seen.",
  ["authorizerd.go", "principal.go"], [("principal construction", "authority.authorize"), ("accessors", "principal, oAuthAccessToken")],
  "The accessors are evaluated abstractly on the object each path builds and compared with the provenance terms of the verified token.")
p("C05", "An empty action or resource is refused before anything is consulted",
  "With policies enabled, a token request whose action or resource is empty fails with the invalid-parameters error before the verification cache, a token processor, the translator or the policies are consulted; that error is given for no other request. With policies disabled action and resource are not validated.",
  ["inputs", "configurations"],
  "every combination of empty and non-empty action and resource, every API and configuration",
  "The tests cover single combinations of one API.",
  ["authorizerd.go"], [("parameter check", "authority.authorize")],
  "Dominance and cause analysis over the exit classes of every token API.")
p("C06", "Request verification is the OR of exactly the enabled credential types",
  "Verifying or authorizing an HTTP request succeeds exactly when one of the configured verifiers succeeds, trying each in turn, and otherwise fails with the invalid-credentials error; the principal is that of the verifier that succeeded. The verifiers are exactly those of the enabled credential types, an error when there are none, and each takes its credential from its configured place: the role token header, the access token header (its bearer part) with the TLS peer certificate, or the TLS peer certificates.",
  ["inputs", "configurations"],
  "every request and every combination of enabled credential types",
  "The tests use a few verifiers and mostly valid requests; they do not see a verifier that is skipped, cut short or fed from another header under a rare configuration.",
  ["authorizerd.go"], [("request verification", "authority.Verify, authority.Authorize"), ("verifier construction", "authority.initAuthorizers")],
  "Loop summaries of Verify/Authorize plus analysis of each verifier closure built on each configuration path.")
p("C07", "Role certificates are accepted only for the roles they name",
  "A role certificate request is accepted exactly when policies are disabled or the policies of one domain allow the roles that the certificates' common names and their URIs with the configured prefix name for that domain; all of those roles and no others are asked, only exact duplicates are dropped, and every named domain is asked before refusing. Asking for a principal of a role certificate never grants access.",
  ["inputs", "configurations"],
  "every list of certificates, every common name and URI",
  "The tests use few certificates; a lost role, a role of another domain, or a loop that ends early needs particular combinations.",
  ["authorizerd.go"], [("role certificates", "authority.VerifyRoleCert, AuthorizeRoleCert")],
  "Loop iterations are classified by source (name, URI, duplicate, other); every map update and policy query is matched against the iteration's facts.")
p("C08", "A role token is accepted only unexpired and with a valid signature",
  "A role token is accepted only when it has a signature, its expiry time is not in the past, a ZTS public key exists for the key ID it names, and that key verifies everything before the signature delimiter against everything after it. Every refusal has one of those causes or a malformed field, with the error of that cause, and no token is returned with an error.",
  ["inputs"],
  "every role token string",
  "The tests verify a few tokens; what exactly is signed, and that every path to success passes each check, holds for all strings or not at all.",
  ["role/processor.go", "role/token.go"], [("role token validation", "rtp.ParseAndValidateRoleToken, rtp.parseToken, rtp.validate")],
  "Must-pass analysis over all exit classes with the provenance of key, text and signature.")
p("C09", "Role token fields are read completely and from the right keys",
  "Every key=value pair before the signature of a role token sets exactly the field its key stands for, to the whole text after the first '=', with the last pair of a key winning; unknown keys set nothing. A pair without '=' and a malformed time make the token invalid, and no token is accepted before all pairs were read.",
  ["inputs"],
  "every role token string, any number and order of pairs",
  "The tests parse a few well-formed tokens.",
  ["role/processor.go", "role/token.go"], [("role token parser", "rtp.parseToken, Token.SetParams")],
  "Loop summary of the parser: per key the store, its value's provenance and the conditions.")
p("C10", "An access token is accepted only as a verified, unexpired JWT",
  "Access token claims are returned only when the JWT parser accepted the very token presented, with the authorizer's own key lookup and no options that weaken it, and reported it valid; an expiry claim is required and must not be past, and issue time and not-before must hold. The key lookup gives only an existing key, found by the token's string key ID and (when present) string key set URL, and otherwise an error.",
  ["inputs", "configurations"],
  "every token, header, claim set and processor configuration",
  "The tests use a few signed tokens; a lookup that yields no key without an error, an optional expiry or a weaker parser option only shows for tokens they do not have.",
  ["access/processor.go", "access/claim.go"], [("access token validation", "atp.ParseAndValidateOAuth2AccessToken, atp.keyFunc, OAuth2AccessTokenClaim.Valid")],
  "Must-pass analysis of the processor, of the key function it hands to the parser, and of the claim validator.")
p("C11", "The JWK lookup returns only the key of that ID from that key set",
  "Looking up a JWK returns the raw key with exactly the given ID from the key set stored for exactly the given URL, or for the Athenz URL when none is given; it returns nothing when the ID is empty, the set or the key is missing or the key is unreadable.",
  ["inputs", "histories"],
  "every key ID, URL and content of the key store",
  "The tests look up a few keys; falling back to another key set would pass them.",
  ["jwk/daemon.go"], [("JWK provider", "jwkd.GetProvider, jwkd.getKey")],
  "Provenance of the returned key and cause of every nil.")
p("C12", "Certificate-bound access tokens follow the full decision table",
  "With certificate binding enabled, an access token is accepted exactly when a client certificate is present and either its thumbprint equals the bound one, or a thumbprint is bound and the refreshed-certificate rule holds (an offset is configured, certificate subject and token client names are equal and not empty, and the token was issued within both time bounds), or one of the certificate's URIs is a listed proxy principal. With binding disabled it is never a cause of refusal.",
  ["inputs", "configurations"],
  "every certificate, claim set and configuration of the binding",
  "The tests sample points of the table; one-sided bounds, missing thumbprints and proxy lists combine into far more rows than they hold.",
  ["access/processor.go"], [("certificate binding", "atp.validateCertificateBoundAccessToken, validateCertPrincipal")],
  "Both directions of the table over all exit classes, with the proxy loops summarised.")
p("C13", "Client ID verification is enforced whenever it is enabled",
  "With client ID verification enabled, an access token is accepted only when a client certificate is present and the token's client ID is listed for the certificate's common name, and it is refused for its client ID in no other case; this holds whatever the certificate binding says. With it disabled the client ID is never a cause of refusal.",
  ["inputs", "configurations"],
  "every certificate, client ID, configured list and combination with certificate binding",
  "The tests check the helper on a few lists; that no combination of options bypasses it is a statement about all paths.",
  ["access/processor.go"], [("client ID", "atp.validateClientID, atp.ParseAndValidateOAuth2AccessToken")],
  "Must-pass and cause analysis over all exit classes with the list loop summarised.")
p("C23", "A JWK refresh keeps good key sets and reports every failed fetch",
  "A JWK refresh fetches the Athenz URL and every other configured URL with the configured client and context, going on after a failure; each key set that is fetched replaces exactly the set of its own URL, and a failed fetch leaves the stored set in place. The refresh fails exactly when at least one fetch failed, and nothing else changes the stored key sets.",
  ["fault_sequences", "histories", "configurations"],
  "every sequence of fetch outcomes over any list of URLs",
  "The tests run one or two URLs with one failure.",
  ["jwk/daemon.go"], [("JWK refresh", "jwkd.Update")],
  "Loop summary with a failure-memory typestate; who-writes census of the key store.")
p("C14", "Policies take effect only with both signatures verified and unexpired",
  "A domain's policy is kept or fed into the role policies only when its expiry is present and in the future, the ZTS key it names verifies the signature over its signed data, and the ZMS key it names verifies the signature over its policy data, with the keys of the policy daemon's own key provider. A policy is refused only for one of those causes. A policy whose check failed is neither returned nor remembered by the fetch.",
  ["inputs", "histories"],
  "every signed policy document and every state of the public keys",
  "The tests verify a few documents; a path on which one of the two signatures or the expiry is not checked needs a document they do not have.",
  ["policy/signed_policy.go", "policy/fetcher.go", "policy/daemon.go"], [("signature check", "SignedPolicy.Verify"), ("fetch", "fetcher.Fetch"), ("verifier wiring", "policy.New")],
  "Must-pass and cause analysis of the verification, typestate of the fetch, provenance of what the role policies are built from.")
p("C15", "A deny assertion always wins over an allow for the same role policy",
  "Building the role policies of a domain takes every assertion of every policy: of those with the same role, action and resource a deny replaces an allow and never the reverse. Each role's list holds all of the role's assertions with every deny ahead of every allow, and an assertion that cannot be built fails the build.",
  ["inputs", "schedules"],
  "every domain policy, every order of policies and assertions",
  "The tests build role policies from a few small documents in one order.",
  ["policy/daemon.go"], [("role policy build", "fetchAndCachePolicy, simplifyAndCachePolicy")],
  "Loop summaries of the two passes: per iteration the map update or list insertion and its condition.")
p("C16", "A permission check decides by the role's first matching assertion",
  "A permission check looks up, for every role of the requester, the assertions kept for that role of the requester's domain, and takes the effect of the first whose domain (case-insensitively), action and resource match; only an assertion that does not match is passed over. It is granted with exactly the roles whose first match allows, when there is one and no role's first match denies; otherwise it fails with the deny error or the no-match error.",
  ["inputs", "schedules"],
  "every domain, role list, action, resource, role policies and order in which the role lookups report",
  "The tests ask a few questions to a few assertions; order of reports and positions in the list matter.",
  ["policy/daemon.go"], [("permission check", "policyd.CheckPolicyRoles, policyd.CheckPolicy")],
  "The goroutine per role is analysed as a summary of its exits; the collecting loop by iteration classes and memory of the deny.")
p("C17", "Assertion patterns match whole strings, case-insensitively, as globs",
  "The action and resource patterns of an assertion are compiled from its lowercased action and from its lowercased resource after the first colon, anchored at both ends. In them '*' stands for any sequence of characters (line breaks excepted), '?' for any one, and every other character, those special to regular expressions included, only for itself. An assertion is applied to a request only when the two patterns match the whole of the request's lowercased action and lowercased resource, and passed over only when one of them (or the domain) does not match.",
  ["inputs"],
  "every action and resource string",
  "The tests compile a few patterns; one forgotten metacharacter widens only patterns that hold it.",
  ["policy/assertion.go", "policy/daemon.go"], [("pattern", "NewAssertion, patternFromGlob, isRegexMetaCharacter"), ("use", "policyd.CheckPolicyRoles")],
  "Loop summary of the translation: for each class of rune the piece appended; anchors and case folding by provenance.")
p("C18", "Role policies are cached no longer than their policy is valid",
  "Role policies are put in effect only with a lifetime that ends at their policy's expiry, and not at all when it is past. Expired entries are looked for every purge period until the context ends; when an entry expires, the policies of that role's own domain are fetched and put into the role policies in effect.",
  ["inputs", "histories"],
  "every policy expiry, build time and expiry event",
  "The tests do not wait for expiries.",
  ["policy/daemon.go"], [("lifetime", "fetchAndCachePolicy"), ("expiry hook", "policyd.Update, policyd.fetchAndCachePolicy")],
  "Provenance of the lifetime and typestate of the insertion; analysis of the hook closure.")
p("C19", "A policy update replaces all role policies at once or not at all",
  "A policy update fetches every configured domain into a new set of role policies, waits for all of them, and puts the new set in effect by a single atomic swap only when all of them succeeded. When one fails, the update fails and the role policies in effect are left as they are; the replaced set is only stopped, never changed.",
  ["fault_sequences", "schedules"],
  "every outcome and order of the domains' fetches, with permission checks in between",
  "The tests run updates without failures in the middle and without concurrent readers.",
  ["policy/daemon.go"], [("policy update", "policyd.Update")],
  "Event order over all exits, goroutine summaries, who-writes census of the role policies.")
p("C20", "A policy fetch asks for its own domain and honours ETag and retries",
  "A policy fetch requests its own domain's document from the configured URL with the configured client and the caller's context, sending the remembered ETag exactly while the remembered policy is fresh; a not-modified answer gives the remembered policy or an error, and a failure changes nothing that is remembered. A fetch with retries tries once plus the configured number of retries, waiting the configured delay in between, returns the first success, and after the last failure gives the remembered policy with the error of that failure, or fails when nothing is remembered.",
  ["fault_sequences", "histories"],
  "every sequence of answers and failures and every content of the memory",
  "The tests script a few answer sequences with short delays.",
  ["policy/fetcher.go"], [("fetch", "fetcher.Fetch"), ("retry", "fetcher.FetchWithRetry")],
  "All exit classes of the fetch with request provenance and event order; loop summary of the retries.")
p("C21", "The public key lookup returns exactly the named key of the named service",
  "Looking up a public key returns exactly the verifier stored under the given key ID for the given service (ZTS or ZMS), and nothing when there is none under that ID.",
  ["inputs", "histories"],
  "every service, key ID and content of the key stores",
  "The tests look up a few keys in one store.",
  ["pubkey/daemon.go"], [("public key provider", "pubkeyd.GetProvider, pubkeyd.getPubKey")],
  "Provenance of the returned verifier and cause of every nil.")
p("C22", "A public key refresh replaces a service's keys completely or not at all",
  "A public key refresh asks for both services' own key documents, sending the remembered ETag of a service while it is kept, which is for the configured time, is always that of the keys in use and is forgotten when newer keys come without one; a document that was received and decoded completely replaces exactly its own service's keys, new keys in place before those no longer listed are removed, and a not-modified answer changes nothing. When a service's request, answer or decoding fails, its keys stay as they are, the refresh fails, and its ETag is not used for the next refresh.",
  ["fault_sequences", "histories", "schedules"],
  "every answer, key document, ETag memory and failure of either service, with lookups in between",
  "The tests use a few documents and look at the stored keys after success; a half-applied document or a key that is missing for a moment is not seen.",
  ["pubkey/daemon.go"], [("public key refresh", "pubkeyd.Update, pubkeyd.fetchPubKeyEntries, pubkeyd.updatePubKeyEntries")],
  "Typestate over the event order of every exit, loop summaries of decoding, publishing and removing.")
p("C24", "Init and Start run exactly the enabled daemons, public keys first",
  "Initialisation updates exactly the enabled daemons, the policies only after the public keys were updated without error when both are enabled, waits for all, and reports a failure of any. Starting starts exactly the enabled daemons with the caller's context and returns a channel that carries their errors.",
  ["configurations", "fault_sequences", "schedules"],
  "every combination of enabled daemons and outcome of their updates",
  "The tests use one or two combinations.",
  ["authorizerd.go"], [("init", "authority.Init"), ("start", "authority.Start")],
  "Goroutine summaries per configuration path with happens-before by group waits.")
p("C25", "A daemon refreshes every period, retries failures and ends with its context",
  "While its context lives, a started daemon updates once for each tick of its refresh period and for each queued retry, reports each failed update on its channel and queues a retry, waiting its retry delay between failing retries, and reports nothing for a success; a failure it could not report at once is kept and reported when it ends. It ends exactly when its context does: it stops its ticker, reports the context's error and closes its channel. While the public key daemon runs, expired ETags are purged every purge period. The authorizer passes on every error of its daemons until its context ends.",
  ["schedules", "fault_sequences", "histories"],
  "every interleaving of ticks, retries, failures and cancellation",
  "The tests run a daemon for a few ticks of some milliseconds.",
  ["pubkey/daemon.go", "policy/daemon.go", "jwk/daemon.go", "authorizerd.go"], [("daemon loops", "pubkeyd.Start, policyd.Start, jwkd.Start"), ("error forwarding", "authority.Start")],
  "Loop summary per select case: events of each iteration class; safety of the loop only, no statement about how soon it runs.")
p("C26", "A permission check never panics, blocks or leaves goroutines behind",
  "A permission check runs one lookup per role; every path of each reports at most once, into a channel with room for all reports, and ends. The channel is closed exactly once, after all lookups ended, the lookups are cancelled when the check returns, and no lookup panics on what the role policies hold.",
  ["schedules", "inputs"],
  "every number of roles, outcome of the lookups, order of their reports and cancellation",
  "A send on a closed or full channel shows only under schedules that the tests do not control.",
  ["policy/daemon.go"], [("permission check", "policyd.CheckPolicyRoles")],
  "Counting analysis over the exits of each goroutine: sends, done, close; channel capacity by provenance.")
p("C27", "Every option takes effect in its own place and the defaults are as documented",
  "Each option, applied, sets exactly its own setting to the given value, and the given options are applied after the defaults in their order. The authorizer hands every setting to the part (daemon, fetcher or processor) it is meant for, makes exactly the enabled parts, and gives the processors and the policy daemon the key providers of its own daemons. The defaults are the documented ones: all parts enabled; refresh 24h for keys and JWKs and 30m for policies, expiry margin 3h, purge period 1h, retry delay 1m, 2 retries, ETag expiry 168h and purge 84h, domain sys.auth, URL athenz.io/zts/v1, cache 1m, an HTTP client with a timeout of 30s, header Athenz-Role-Auth, URI prefix athenz://role/, access token parameters (true, true, 1h, 1h, false, none).",
  ["configurations"],
  "every option, order of options and combination of enabled parts",
  "The tests apply one option at a time to an empty object; crossed wires between two settings of the same type are not seen.",
  ["option.go", "authorizerd.go", "pubkey/option.go", "policy/option.go", "jwk/option.go", "access/option.go", "role/option.go", "policy/daemon.go"],
  [("options", "With* functions and defaultOptions of each package"), ("wiring", "authorizerd.New, policy.New")],
  "Effect analysis of each option closure; provenance of each argument in New; constants of the default options.")
p("C28", "Invalid settings are refused and stored nowhere",
  "An option that takes a duration or period fails exactly when the text given is no duration or, for a refresh or purge period, not positive; one that takes the Athenz URL fails exactly when it names a scheme other than http or https, one that takes key set URLs when one of them is no http or https URL or the Athenz URL to take them from is empty, and the one of the cache expiry when its half, the purge period, is not positive. A refused value is stored nowhere, and making the authorizer or the daemon with it fails.",
  ["inputs", "configurations"],
  "every text given to every option",
  "The tests give one valid and one invalid text to some options.",
  ["option.go", "pubkey/option.go", "policy/option.go", "jwk/option.go", "access/option.go", "internal/url/util.go"],
  [("option validation", "With* functions of each package, CheckAthenzURLHasValidScheme")],
  "Cause analysis in both directions over the exits of each option closure.")
p("C29", "Token signatures never reach logs or error texts",
  "On every path of a token request, request verification and token processing, no log line and no error text made by the library holds the presented token, its signature, the authorization header or the cache key; at most the part of the token before its signature (role token: before ';s=', access token: before the last dot) appears.",
  ["inputs", "configurations", "error paths"],
  "every token, header and configuration, on success and on every failure path, including log calls behind a log level and panicking requests",
  "No test reads the log, and the error texts are compared for a few invalid tokens only; a leak on any one path is enough to let someone replay the token.",
  ["authorizerd.go", "role/processor.go", "access/processor.go", "role/token.go"], [("logging and errors", "authorize, Verify*, ParseAndValidateRoleToken, ParseAndValidateOAuth2AccessToken")],
  "Taint over the terms: every argument of every log call, panic and error constructor reached is searched for the token and everything that is made from it.")
p("C31", "The retrying transport repeats only what may be repeated",
  "The retrying transport sends a request at least once and at most the configured number of times, and again only after a temporary error when the growing wait ends within the time limit fixed at the start and has passed, or after an answer 429, 500, 503 or 504. The last attempt's own answer and error are returned; the body of a replaced answer is drained and closed, the one handed out is left open.",
  ["histories", "fault sequences", "configurations"],
  "every sequence of answers and errors of the wrapped transport, every configuration of attempts and times",
  "The tests run a few sequences of answers; a leak of a connection, a sent request too many or a lost error needs a sequence they do not have.",
  ["client/exp_rt.go"], [("retry", "(*transport).RoundTrip")],
  "Per-round analysis of the retry loop: each next round needs a decided repeatable outcome of this one, with wait and body handling before it; the returned terms are those of the last round.")
p("C32", "A request is translated by the first rule that matches it completely",
  "Translate uses the first rule of the token's domain whose method (case-insensitively), number of path segments, literal segments, set of query names and literal single query values match; its action is returned and its resource with all placeholders of that match replaced in one pass whose result does not depend on map order. Without rules or a match, method and path are returned unchanged; it fails only for an unparsable query of a request whose method and number of segments match a rule.",
  ["inputs", "configurations"],
  "every list of rules, domain, method, path and query",
  "The tests translate some requests with some rules; a rule that matches too much grants what the operator did not map, and a value that looks like a placeholder or an unlucky map order is not among them.",
  ["translator.go"], [("translation", "(*MappingRules).Translate")],
  "Per-round analysis of the three loops: a rule is passed over only with a decided mismatch, a segment or parameter only with a decided match; the replaced resource is traced to the placeholder map of the round.")
p("C33", "Mapping rules are accepted exactly when they are well-formed",
  "NewMappingRules accepts its rules exactly when they are not nil, every domain is non-empty and has non-nil rules, and every rule has a method, an action, a resource, a path that is empty or absolute, a query that parses with one value per name, and placeholders that are non-empty and unique in the rule. The result holds the rules given, and every segment and query value of each rule is kept as the literal or the placeholder that it is.",
  ["inputs"],
  "every map of rules",
  "The tests have one example for most defects; a defect in a later segment, parameter or rule, or together with another one, is not among them.",
  ["translator.go"], [("rule validation", "NewMappingRules, (*MappingRules).validate, (*Rule).isPlaceholder")],
  "Cause analysis of every refusal, completeness of every loop before acceptance, and per-round analysis of what is kept.")

p("C30", "What concurrent requests and refreshes share is never raced on",
  "Concurrent requests, refreshes and retries never race on the library's memory: what they share is never written after its construction, or is read and written only through atomic pointers, concurrent maps, a once or one lock; no variable is shared unsynchronised with a goroutine that the library starts; and no object is changed after it was published.",
  ["schedules", "histories"],
  "every interleaving of requests, refreshes, retries and the goroutines that they start",
  "A data race shows only under schedules the tests do not control, and the suite is not run with the race detector.",
  ["authorizerd.go", "policy/daemon.go", "policy/fetcher.go", "pubkey/daemon.go", "jwk/daemon.go", "translator.go", "internal/url/util.go"],
  [("role policies and policy cache", "policyd.Update, CheckPolicyRoles, fetcher.Fetch"), ("goroutines", "every go statement and errgroup.Go")],
  "Ownership analysis of every store, map update, append and sort of the module (where its memory comes from, through calls, closures and loads); lockset and atomicity per field and package variable; happens-before per captured variable. Memory handed over through channels is not followed.")
P[-1]["tech"] = "static analysis: ownership (origin of written memory), lockset/atomicity per shared location and captured-variable escape analysis over go/ssa"
p("C34", "A fetched response is read to its end and closed exactly once",
  "On every path of a policy or public key fetch the body of a received response is read to its end and closed exactly once, is not used afterwards, and nothing is touched of the response of a request that failed.",
  ["inputs", "fault_sequences"],
  "every answer of the server (status, headers, body, decoding failure) and every request failure",
  "A body left open leaks one connection per refresh and fails only after many; the tests close their server at the end.",
  ["policy/fetcher.go", "pubkey/daemon.go"], [("policy fetch", "fetcher.Fetch"), ("key fetch", "pubkeyd.fetchPubKeyEntries")],
  "Typestate of the response body over the ordered events of every path.")
p("C35", "No presented or unsigned data makes the library panic",
  "No token, certificate, request, stored cache value or server answer that is not signed makes the library panic: every nil dereference, index, slice bound, type assertion and map write that such data reaches is guarded on its path, also when key providers are absent or processors are disabled.",
  ["inputs", "configurations"],
  "every token, certificate chain, request, answer of a key or policy server and enabled combination of parts",
  "The tests present tens of malformed inputs; one unguarded index crashes the server that uses the library.",
  ["authorizerd.go", "role/processor.go", "role/token.go", "access/processor.go", "policy/fetcher.go", "policy/signed_policy.go", "pubkey/daemon.go", "jwk/daemon.go", "translator.go"],
  [("requests", "Verify*, Authorize*"), ("processing", "ParseAndValidate*"), ("fetches", "Fetch, Update, fetchPubKeyEntries")],
  "Every panicking operation met on a path needs a decided guard among the path's facts; what signed (trusted) policy data holds is assumed present.")
p("C36", "Errors keep their identity up to the caller",
  "The exported errors are the same values as those that the parts of the library return. Every error of a token or role certificate request, token processing, permission check, policy or key refresh or Init has as its root cause the error of the step that failed on that path or one of the exported errors; no new error hides a failed step, and a policy answer whose status is neither 200 nor a usable 304 gives ErrFetchPolicy.",
  ["inputs", "fault_sequences", "error paths"],
  "every failing path",
  "The tests compare messages of a few failures; servers map causes (errors.Cause) to responses and an error that lost its cause is mapped wrongly.",
  ["errors.go", "authorizerd.go", "policy/fetcher.go", "policy/daemon.go", "pubkey/daemon.go", "role/processor.go"],
  [("errors", "authorize, Init, Fetch, FetchWithRetry, Update, CheckPolicyRoles"), ("aliases", "errors.go")],
  "Root-cause analysis of the returned error term of every failing path against the failures decided on that path. The JWK refresh, whose error is a list of URLs, and library code are left out.")
p("C37", "Policy and key changes take effect within a bounded time",
  "A policy, key or key set that the servers changed is in effect at most one refresh period, plus the retries and the time of the fetches, after the change.",
  ["schedules", "histories"],
  "every timing of refreshes, scheduler and servers",
  "Elapsed time is not visible to a unit test of some milliseconds.",
  ["policy/daemon.go", "pubkey/daemon.go", "jwk/daemon.go"], [("daemon loops", "Start")],
  "Not claimed.")
p("C38", "Only holders of the private keys can make accepted signatures",
  "A signature that was not made with the private key belonging to a key of the providers is rejected for every policy, role token and access token.",
  ["inputs"],
  "every byte string offered as a signature",
  "No number of forged samples settles it.",
  ["policy/signed_policy.go", "role/processor.go", "access/processor.go"], [("verification", "Verify, ParseAndValidate*")],
  "Not claimed.")

p("C39", "Documents are decoded by their documented member names",
  "The claims of an access token, the public keys of a service and a signed policy are decoded from the members that Athenz documents (client_id, scp, cnf, aud, sub, iat, exp, nbf; publicKeys with id and key; keyId, signature, signedPolicyData with expires, zmsKeyId, zmsSignature and policyData with its policies' assertions of action, effect, resource and role), completely and unchanged, into the fields that the library uses; members that it does not know are ignored.",
  ["inputs"],
  "every document, with any members, number of elements and values",
  "The tests decode a few short documents; a decoder that treats long lists, absent or additional members differently passes them.",
  ["access/claim.go", "pubkey/sys_auth_config.go", "policy/signed_policy.go"],
  [("documents", "OAuth2AccessTokenClaim, SysAuthConfig, SignedPolicy"), ("decoding", "ParseWithClaims, Fetch, fetchPubKeyEntries")],
  "Type-level: the field that encoding/json's dominance rules choose for each member name, its type, and the absence of own decoding methods and strict decoders. That encoding/json itself is right is assumed.")

NA = [
 ("C37", "The bound is on elapsed time: it depends on tickers, the scheduler, sleeping retries and the duration of network requests, none of which the source bounds. What the source does settle, that each tick and queued retry causes an update, is C25."),
 ("C38", "Unforgeability is a computational property of the RSA/ECDSA implementations and hash functions in the dependencies. What the source settles, that every accepted object had its own bytes verified with a key of the provider, is C01, C08, C11 and C14."),
]
