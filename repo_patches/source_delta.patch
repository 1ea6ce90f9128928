From ffce1f1a3043222ab2b70f301aea736a1b22a0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:51 +0000
Subject: [PATCH 01/22] fix: escape the delimiter in the components of the
 success cache key

Two different requests, for example (action "a", resource "b:c") and
(action "a:b", resource "c"), or a bare token "T:issuer:subject" and the
token "T" sent with a certificate, shared one cache key, so one was granted
with the cached result of the other.
---
 authorizerd.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 954c4ac..43814ce 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -124,6 +124,9 @@ const (
 	accessToken
 )
 
+// cacheKeyEscaper escapes the delimiter inside the components of a cache key, different components never build the same key
+var cacheKeyEscaper = strings.NewReplacer("\\", "\\\\", string(cacheKeyDelimiter), "\\"+string(cacheKeyDelimiter))
+
 // New creates the Authorizerd object with the options
 func New(opts ...Option) (Authorizerd, error) {
 	var (
@@ -366,13 +369,14 @@ func (a *authority) AuthorizeAccessToken(ctx context.Context, tok, act, res stri
 
 func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query string, cert *x509.Certificate) (Principal, error) {
 	var key strings.Builder
-	key.WriteString(tok)
+	keyTok := cacheKeyEscaper.Replace(tok)
+	key.WriteString(keyTok)
 
 	if cert != nil {
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Issuer.CommonName)
+		key.WriteString(cacheKeyEscaper.Replace(cert.Issuer.CommonName))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(cert.Subject.CommonName)
+		key.WriteString(cacheKeyEscaper.Replace(cert.Subject.CommonName))
 	}
 
 	if !a.disablePolicyd {
@@ -380,12 +384,12 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
 		}
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(act)
+		key.WriteString(cacheKeyEscaper.Replace(act))
 		key.WriteRune(cacheKeyDelimiter)
-		key.WriteString(res)
+		key.WriteString(cacheKeyEscaper.Replace(res))
 		if query != "" && a.translator != nil {
 			key.WriteRune(cacheKeyDelimiter)
-			key.WriteString(query)
+			key.WriteString(cacheKeyEscaper.Replace(query))
 		}
 	}
 
@@ -393,7 +397,7 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	cached, ok := a.cache.Get(key.String())
 	if ok {
 		glg.DebugFunc(func() string {
-			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), tok))
+			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
 		})
 		return cached.(Principal), nil
 	}
@@ -466,7 +470,7 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	}
 
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), tok), act, res)
+		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok), act, res)
 	})
 	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
 	return p, nil
-- 
2.43.0


From b4c65ef682ca8ab702ade59c8776f9d944a7f152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:12 +0000
Subject: [PATCH 02/22] fix: key cached access token results by the whole
 client certificate

The cache key identified the client certificate only by its issuer and
subject common names, so for the cache TTL a certificate bound access token
was accepted with another certificate of the same names.
---
 authorizerd.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/authorizerd.go b/authorizerd.go
index 43814ce..d4afe99 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -18,7 +18,9 @@ package authorizerd
 
 import (
 	"context"
+	"crypto/sha256"
 	"crypto/x509"
+	"encoding/hex"
 	"fmt"
 	"net/http"
 	"strings"
@@ -119,6 +121,7 @@ type mode uint8
 
 const (
 	cacheKeyDelimiter      = ':'
+	cacheKeyCertMark       = "\\#" // never produced by cacheKeyEscaper
 	roleInCNDelimiter      = ":role."
 	roleToken         mode = iota
 	accessToken
@@ -377,6 +380,12 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 		key.WriteString(cacheKeyEscaper.Replace(cert.Issuer.CommonName))
 		key.WriteRune(cacheKeyDelimiter)
 		key.WriteString(cacheKeyEscaper.Replace(cert.Subject.CommonName))
+		if len(cert.Raw) != 0 {
+			// the certificate checks depend on the whole certificate, not only on its names
+			sum := sha256.Sum256(cert.Raw)
+			key.WriteString(cacheKeyCertMark)
+			key.WriteString(hex.EncodeToString(sum[:]))
+		}
 	}
 
 	if !a.disablePolicyd {
-- 
2.43.0


From 12c6ded71a7f132e2f71721af80d65f395a5788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:13 +0000
Subject: [PATCH 03/22] fix: do not reuse a cached result for the other token
 type

A token cached as an access token was accepted as a role token (and the
other way round) until the cache entry expired.
---
 authorizerd.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index d4afe99..98987e7 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -405,10 +405,13 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 	// check if exists in verification success cache
 	cached, ok := a.cache.Get(key.String())
 	if ok {
-		glg.DebugFunc(func() string {
-			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
-		})
-		return cached.(Principal), nil
+		// the result of one token type is never used for the other token type
+		if _, isAccessToken := cached.(OAuthAccessToken); isAccessToken == (m == accessToken) {
+			glg.DebugFunc(func() string {
+				return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
+			})
+			return cached.(Principal), nil
+		}
 	}
 
 	var (
-- 
2.43.0


From 1486f109bddc266b40d0491462445a6d96fd7f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:15 +0000
Subject: [PATCH 04/22] fix: reject a token of a disabled credential type
 instead of panicking

VerifyRoleToken and VerifyAccessToken dereferenced a nil processor when role
tokens or access tokens are disabled.
---
 authorizerd.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/authorizerd.go b/authorizerd.go
index 98987e7..0f8831b 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -422,6 +422,9 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 
 	switch m {
 	case roleToken:
+		if a.roleProcessor == nil {
+			return nil, errors.Wrap(ErrInvalidCredentials, "role token is disabled")
+		}
 		rt, err := a.roleProcessor.ParseAndValidateRoleToken(tok)
 		if err != nil {
 			glg.Infof("error parse and validate role token, err: %v", err)
@@ -437,6 +440,9 @@ func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query
 			expiryTime: rt.ExpiryTime.Unix(),
 		}
 	case accessToken:
+		if a.accessProcessor == nil {
+			return nil, errors.Wrap(ErrInvalidCredentials, "access token is disabled")
+		}
 		ac, err := a.accessProcessor.ParseAndValidateOAuth2AccessToken(tok, cert)
 		if err != nil {
 			glg.Infof("error parse and validate access token, err: %v", err)
-- 
2.43.0


From 9f6c7f004c51ef09b84374de6e91622de20666ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:16 +0000
Subject: [PATCH 05/22] fix: do not drop a role of a role certificate as a
 duplicate of another one

The duplicate check concatenated domain and role, so role "c" of domain
"ab" was dropped after role "bc" of domain "a".
---
 authorizerd.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/authorizerd.go b/authorizerd.go
index 0f8831b..323d84b 100644
--- a/authorizerd.go
+++ b/authorizerd.go
@@ -526,7 +526,7 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		return nil
 	}
 
-	drcheck := make(map[string]struct{})
+	drcheck := make(map[[2]string]struct{})
 	domainRoles := make(map[string][]string)
 	addDomainRoles := func(dr []string) {
 		if len(dr) != 2 {
@@ -534,9 +534,10 @@ func (a *authority) VerifyRoleCert(ctx context.Context, peerCerts []*x509.Certif
 		}
 		domain, roleName := dr[0], dr[1]
 		// duplicated role check
-		if _, ok := drcheck[domain+roleName]; !ok {
+		domainRole := [2]string{domain, roleName}
+		if _, ok := drcheck[domainRole]; !ok {
 			domainRoles[domain] = append(domainRoles[domain], roleName)
-			drcheck[domain+roleName] = struct{}{}
+			drcheck[domainRole] = struct{}{}
 		}
 	}
 
-- 
2.43.0


From 44eb85bfcdf8ebfb8f22f9c93c124fa419091e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:10 +0000
Subject: [PATCH 06/22] fix: never lose a deny assertion to a concurrent allow
 assertion

The policies of a domain are merged concurrently with a load followed by a
store, so an allow could replace the equal deny stored in between.
---
 policy/daemon.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index a64979e..199f140 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -334,13 +334,11 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 					return ctx.Err()
 				default:
 					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
-					if _, ok := assm.Load(km); !ok {
+					// deny policy will override allow policy, and also remove duplication
+					if strings.EqualFold("deny", ass.Effect) {
 						assm.Store(km, ass)
 					} else {
-						// deny policy will override allow policy, and also remove duplication
-						if strings.EqualFold("deny", ass.Effect) {
-							assm.Store(km, ass)
-						}
+						assm.LoadOrStore(km, ass)
 					}
 				}
 			}
-- 
2.43.0


From 365bccf65faf4fed13292fc13bc3f2b86406c31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:18 +0000
Subject: [PATCH 07/22] fix: do not merge different assertions as duplicates

Role, action and resource were joined with a comma, so assertions with a
comma in the action or resource could be dropped as duplicates.
---
 policy/daemon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 199f140..6071efe 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -333,7 +333,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 				case <-ctx.Done():
 					return ctx.Err()
 				default:
-					km := fmt.Sprintf("%s,%s,%s", ass.Role, ass.Action, ass.Resource)
+					km := [...]string{ass.Role, ass.Action, ass.Resource}
 					// deny policy will override allow policy, and also remove duplication
 					if strings.EqualFold("deny", ass.Effect) {
 						assm.Store(km, ass)
-- 
2.43.0


From 70e4e91710b500dc7a55685f248af1b13d1c379c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:26 +0000
Subject: [PATCH 08/22] fix: do not cache an expired policy without expiry

When the policy cannot be fetched, the last policy is cached again. Once it
is expired its remaining time is not positive, which the cache treats as no
expiry, so the expired policy granted access until the next successful fetch.
---
 policy/daemon.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 6071efe..411bc9e 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -363,6 +363,13 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 			return false
 		}
 
+		// an expired policy must not be used, and a duration <= 0 means no expiry in the cache
+		ttl := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now)
+		if ttl <= 0 {
+			glg.Warnf("policy already expired, role: %s", ass.Role)
+			return false
+		}
+
 		var asss []*Assertion
 		if p, ok := rp.Get(ass.Role); ok {
 			asss = p.([]*Assertion)
@@ -374,7 +381,7 @@ func simplifyAndCachePolicy(ctx context.Context, rp gache.Gache, sp *SignedPolic
 		} else {
 			asss = []*Assertion{a}
 		}
-		rp.SetWithExpire(ass.Role, asss, sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now))
+		rp.SetWithExpire(ass.Role, asss, ttl)
 
 		glg.Debugf("added assertion to the tmp cache: %+v", ass)
 		return true
-- 
2.43.0


From ce118a9cac7bc9fefd25fcaf2f5d1ca304b4b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 09/22] fix: refresh an expired policy without data race and
 nil fetcher

The expired hook read the role policies pointer without synchronization while
Update swaps it, and called a nil fetcher when the domain of the expired role
is not one of the configured domains.
---
 policy/daemon.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 411bc9e..9272868 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -188,18 +188,23 @@ func (p *policyd) Update(ctx context.Context) error {
 		EnableExpiredHook().
 		SetExpiredHook(func(ctx context.Context, key string) {
 			// key = <domain>:role.<role>
-			fetchAndCachePolicy(ctx, *(p.rolePolicies), p.fetchers[strings.Split(key, ":role.")[0]])
+			f, ok := p.fetchers[strings.Split(key, ":role.")[0]]
+			if !ok {
+				glg.Warnf("no fetcher to update the expired policy, key: %s", key)
+				return
+			}
+			fetchAndCachePolicy(ctx, p.currentRolePolicies(), f)
 		})
 
 	// swap pointer
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("cache before swap, old: %p %v; new: %p %v", *p.rolePolicies, (*p.rolePolicies).Len(), rp, rp.Len())
+		return fmt.Sprintf("cache before swap, old: %p %v; new: %p %v", p.currentRolePolicies(), p.currentRolePolicies().Len(), rp, rp.Len())
 	})
 	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
 	oldRpPtr := (*gache.Gache)(atomic.SwapPointer(curRpPtrPtr, unsafe.Pointer(&rp)))
 	glg.Debugf("tmp cache becomes effective")
 	glg.DebugFunc(func() string {
-		return fmt.Sprintf("cache after swap, old: %p %v; new: %p %v", *p.rolePolicies, (*p.rolePolicies).Len(), *oldRpPtr, (*oldRpPtr).Len())
+		return fmt.Sprintf("cache after swap, old: %p %v; new: %p %v", p.currentRolePolicies(), p.currentRolePolicies().Len(), *oldRpPtr, (*oldRpPtr).Len())
 	})
 	(*oldRpPtr).Stop()
 
@@ -210,6 +215,12 @@ func (p *policyd) Update(ctx context.Context) error {
 	return nil
 }
 
+// currentRolePolicies returns the role policies in effect, Update swaps them concurrently.
+func (p *policyd) currentRolePolicies() gache.Gache {
+	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
+	return *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
+}
+
 // CheckPolicy checks the specified request has privilege to access the resources or not.
 // If return is nil then the request is allowed, otherwise the request is rejected.
 // Only action and resource is supporting wildcard, domain and role is not supporting wildcard.
-- 
2.43.0


From c724a4844473cc65c5acfb30d8fdef822bf285c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:22 +0000
Subject: [PATCH 10/22] fix: replace the policies of a role when an expired
 policy is refreshed

The expired hook runs once per expired role and merged the whole domain into
the policies in effect each time: a revoked assertion stayed next to its
replacement, and concurrent hooks could overwrite a deny assertion.
---
 policy/daemon.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/policy/daemon.go b/policy/daemon.go
index 9272868..df2cc7d 100644
--- a/policy/daemon.go
+++ b/policy/daemon.go
@@ -193,7 +193,18 @@ func (p *policyd) Update(ctx context.Context) error {
 				glg.Warnf("no fetcher to update the expired policy, key: %s", key)
 				return
 			}
-			fetchAndCachePolicy(ctx, p.currentRolePolicies(), f)
+			// cache apart first, to replace the policies of a role and not to merge into them
+			tmp := gache.New()
+			if err := fetchAndCachePolicy(ctx, tmp, f); err != nil {
+				return
+			}
+			cur := p.currentRolePolicies()
+			tmp.Foreach(ctx, func(role string, asss interface{}, exp int64) bool {
+				if ttl := time.Unix(0, exp).Sub(fastime.Now()); ttl > 0 {
+					cur.SetWithExpire(role, asss, ttl)
+				}
+				return true
+			})
 		})
 
 	// swap pointer
-- 
2.43.0


From 6e8012eda82e49ec17cad26bb928e29cde94042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 11/22] fix: read the policy cache of a fetcher atomically

Fetch and FetchWithRetry compared the pointer with nil without
synchronization, while a concurrent Fetch stores it.
---
 policy/fetcher.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 49c363d..757f77a 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -87,13 +87,10 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 	}
 
 	// ETag header
-	var tp *taggedPolicy
-	if f.policyCache != nil {
-		tp = (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
-		if tp.eTag != "" && tp.eTagExpiry.After(fastime.Now()) {
-			glg.Debugf("request on domain: %s, with ETag: %s", f.domain, tp.eTag)
-			req.Header.Set("If-None-Match", tp.eTag)
-		}
+	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
+	if tp != nil && tp.eTag != "" && tp.eTagExpiry.After(fastime.Now()) {
+		glg.Debugf("request on domain: %s, with ETag: %s", f.domain, tp.eTag)
+		req.Header.Set("If-None-Match", tp.eTag)
 	}
 
 	res, err := f.client.Do(req.WithContext(ctx))
@@ -168,10 +165,11 @@ func (f *fetcher) FetchWithRetry(ctx context.Context) (*SignedPolicy, error) {
 	if lastErr == nil {
 		lastErr = fmt.Errorf("retryAttempts %v", f.retryAttempts)
 	}
-	if f.policyCache == nil {
+	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
+	if tp == nil {
 		return nil, errors.Wrap(errors.Wrap(lastErr, errMsg), "no policy cache")
 	}
-	return (*taggedPolicy)(atomic.LoadPointer(&f.policyCache)).sp, errors.Wrap(lastErr, errMsg)
+	return tp.sp, errors.Wrap(lastErr, errMsg)
 }
 
 func (t *taggedPolicy) String() string {
-- 
2.43.0


From 80e5cf4cdcba01f70dc08cf87cc8f60488d5a177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:59 +0000
Subject: [PATCH 12/22] fix: do not panic on an unexpected 304 or null response

An Athenz server (or a proxy in between) that answers 304 to a request
without ETag, or a JSON null, made the policy and the public key daemon
dereference a nil pointer.
---
 policy/fetcher.go | 7 ++++++-
 pubkey/daemon.go  | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 757f77a..0574706 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -107,6 +107,11 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 
 	// if server responses NotModified, return policy from cache
 	if res.StatusCode == http.StatusNotModified {
+		if tp == nil {
+			errMsg := "fetch policy HTTP response 304 without policy cache"
+			glg.Errorf("%s, domain: %s", errMsg, f.domain)
+			return nil, errors.Wrap(ErrFetchPolicy, errMsg)
+		}
 		glg.Debugf("policy = 304 not modified, use cache for domain: %s, ETag: %v", f.domain, tp.eTag)
 		return tp.sp, nil
 	}
@@ -119,7 +124,7 @@ func (f *fetcher) Fetch(ctx context.Context) (*SignedPolicy, error) {
 
 	// read and decode
 	sp := new(SignedPolicy)
-	if err = json.NewDecoder(res.Body).Decode(&sp); err != nil {
+	if err = json.NewDecoder(res.Body).Decode(sp); err != nil {
 		errMsg := "policy decode fail"
 		glg.Errorf("%s, domain: %s, error: %v", errMsg, f.domain, err)
 		return nil, errors.Wrap(err, errMsg)
diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 7be03ca..cfa281d 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -169,6 +169,9 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 		}
 
 		for _, key := range pubKeys.PublicKeys {
+			if key == nil {
+				return errors.Wrap(ErrFetchAthenzPubkey, "empty public key entry")
+			}
 			glg.Debugf("Decoding key, env: %v, keyID: %v", env, key.ID)
 			decKey, err := dec.DecodeString(key.Key)
 			if err != nil {
@@ -256,6 +259,10 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 
 	// if server return NotModified, return policy from cache
 	if r.StatusCode == http.StatusNotModified {
+		if !ok {
+			glg.Error("Server return not modified, but ETag not found in the cache")
+			return nil, false, errors.Wrap(ErrFetchAthenzPubkey, "http return status not modified without ETag")
+		}
 		cache := t.(*confCache)
 		glg.Debugf("Server return not modified, ETag: %s", cache.eTag)
 		return cache.sac, false, nil
@@ -268,7 +275,7 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	}
 
 	sac := new(SysAuthConfig)
-	if err = json.NewDecoder(r.Body).Decode(&sac); err != nil {
+	if err = json.NewDecoder(r.Body).Decode(sac); err != nil {
 		glg.Errorf("Error decoding public key entries, err: %v", err)
 		return nil, false, errors.Wrap(err, "json format not correct")
 	}
-- 
2.43.0


From d92eb7eed159c15afad5a9f5356dbbb9b44550bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:22 +0000
Subject: [PATCH 13/22] fix: close the response body on every path

The public key daemon left the body open on 304, on an error status and on a
decode error; the policy fetcher left it open when flushing it failed.
---
 policy/fetcher.go |  8 ++++----
 pubkey/daemon.go  | 15 ++++++++-------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/policy/fetcher.go b/policy/fetcher.go
index 0574706..a315e56 100644
--- a/policy/fetcher.go
+++ b/policy/fetcher.go
@@ -191,11 +191,11 @@ func flushAndClose(rc io.ReadCloser) error {
 	if rc != nil {
 		// flush
 		_, err := io.Copy(ioutil.Discard, rc)
-		if err != nil {
-			return err
-		}
 		// close
-		return rc.Close()
+		if cerr := rc.Close(); err == nil {
+			err = cerr
+		}
+		return err
 	}
 	return nil
 }
diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index cfa281d..fe0e158 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -256,6 +256,14 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		glg.Errorf("Error making HTTP request, error: %v", err)
 		return nil, false, errors.Wrap(err, "error make http request")
 	}
+	defer func() {
+		if _, err := io.Copy(ioutil.Discard, r.Body); err != nil {
+			glg.Warn(errors.Wrap(err, "error io.copy"))
+		}
+		if err := r.Body.Close(); err != nil {
+			glg.Warn(errors.Wrap(err, "error body.close"))
+		}
+	}()
 
 	// if server return NotModified, return policy from cache
 	if r.StatusCode == http.StatusNotModified {
@@ -280,13 +288,6 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 		return nil, false, errors.Wrap(err, "json format not correct")
 	}
 
-	if _, err = io.Copy(ioutil.Discard, r.Body); err != nil {
-		glg.Warn(errors.Wrap(err, "error io.copy"))
-	}
-	if err = r.Body.Close(); err != nil {
-		glg.Warn(errors.Wrap(err, "error body.close"))
-	}
-
 	// set eTag cache
 	eTag := r.Header.Get("ETag")
 	if eTag != "" {
-- 
2.43.0


From 8656c5ebb62b7a107c0ab00980c818e20d75162d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 14/22] fix: request the public keys again after an update with
 an invalid key

The ETag was kept when decoding the received keys failed, so the next
requests were answered 304 and the keys stayed outdated until the ETag
expired (one week by default).
---
 pubkey/daemon.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index fe0e158..1cdf243 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -155,7 +155,7 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 	eg := errgroup.Group{}
 
 	// this function decode and create verifier obj and store to corresponding cache map
-	updConf := func(env AthenzEnv, cache *sync.Map) error {
+	updConf := func(env AthenzEnv, cache *sync.Map) (err error) {
 		cm := new(sync.Map)
 		dec := new(authcore.YBase64)
 		pubKeys, upded, err := p.fetchPubKeyEntries(ctx, env)
@@ -168,6 +168,13 @@ func (p *pubkeyd) Update(ctx context.Context) error {
 			return nil
 		}
 
+		defer func() {
+			if err != nil {
+				// the received keys are not in use, do not ask for the changes from them
+				p.eTagCache.Delete(string(env))
+			}
+		}()
+
 		for _, key := range pubKeys.PublicKeys {
 			if key == nil {
 				return errors.Wrap(ErrFetchAthenzPubkey, "empty public key entry")
-- 
2.43.0


From 3e5686a696d0638ff87cc84a8eae63bc083f2af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:29 +0000
Subject: [PATCH 15/22] fix: keep the default HTTP client when a nil client is
 given

pubkey.WithHTTPClient and jwk.WithHTTPClient stored nil, unlike
policy.WithHTTPClient, and the daemon panicked on the first request.
---
 jwk/option.go    | 4 +++-
 pubkey/option.go | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/jwk/option.go b/jwk/option.go
index b272e0c..0f3ec9f 100644
--- a/jwk/option.go
+++ b/jwk/option.go
@@ -102,7 +102,9 @@ func WithURLs(urls []string) Option {
 // WithHTTPClient returns a HTTPClient functional option
 func WithHTTPClient(cl *http.Client) Option {
 	return func(j *jwkd) error {
-		j.client = cl
+		if cl != nil {
+			j.client = cl
+		}
 		return nil
 	}
 }
diff --git a/pubkey/option.go b/pubkey/option.go
index 21fcba7..0bf4a7c 100644
--- a/pubkey/option.go
+++ b/pubkey/option.go
@@ -128,7 +128,7 @@ func WithETagPurgePeriod(d string) Option {
 // WithHTTPClient returns a HTTPClient functional option
 func WithHTTPClient(cl *http.Client) Option {
 	return func(p *pubkeyd) error {
-		if p != nil {
+		if cl != nil {
 			p.client = cl
 		}
 		return nil
-- 
2.43.0


From 046bcfe21b62d2b7855befff5b6dfaea6abe0b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:06 +0000
Subject: [PATCH 16/22] fix: replace the placeholders of a mapping rule in a
 single pass

---
 translator.go | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/translator.go b/translator.go
index 65813d8..c79020c 100644
--- a/translator.go
+++ b/translator.go
@@ -20,6 +20,7 @@ import (
 	"errors"
 	"fmt"
 	"net/url"
+	"sort"
 	"strings"
 )
 
@@ -177,16 +178,27 @@ OUTER:
 				}
 			}
 
-			replacedRes := rule.Resource
-			for placeholder, v := range placeholderMap {
-				replacedRes = strings.ReplaceAll(replacedRes, placeholder, v)
-			}
-			return rule.Action, replacedRes, nil
+			return rule.Action, replacePlaceholders(rule.Resource, placeholderMap), nil
 		}
 	}
 	return method, path, nil
 }
 
+// replacePlaceholders replaces the placeholders of the rule at once, a placeholder inside a replaced value is not replaced again
+func replacePlaceholders(res string, placeholderMap map[string]string) string {
+	placeholders := make([]string, 0, len(placeholderMap))
+	for placeholder := range placeholderMap {
+		placeholders = append(placeholders, placeholder)
+	}
+	sort.Strings(placeholders) // the result must not depend on the order of the map
+
+	oldnew := make([]string, 0, 2*len(placeholders))
+	for _, placeholder := range placeholders {
+		oldnew = append(oldnew, placeholder, placeholderMap[placeholder])
+	}
+	return strings.NewReplacer(oldnew...).Replace(res)
+}
+
 func (r *Rule) isPlaceholder(s string) (bool, error) {
 	if s == placeholderPrefix+placeholderSuffix {
 		return false, errors.New("placeholder is empty")
-- 
2.43.0


From eba9fbb9528df44389aa52d4b9978ac256889d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:20 +0000
Subject: [PATCH 17/22] fix: hand out the response with an open body and close
 the retried ones

---
 client/exp_rt.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index 0eba7db..1ea0393 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -61,6 +61,11 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 	var err error
 
 	for cnt := 0; cnt < p.maxRetryCount; cnt++ {
+		if resp != nil {
+			// this response is going to be replaced
+			io.Copy(ioutil.Discard, resp.Body)
+			resp.Body.Close()
+		}
 		resp, err = p.transport.RoundTrip(req)
 		dur := p.calNextWaitDur(cnt)
 
@@ -82,8 +87,6 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 		}
 
 		// response success
-		io.Copy(ioutil.Discard, resp.Body)
-		resp.Body.Close()
 		return resp, nil
 	}
 
-- 
2.43.0


From 205299c92d3a4568f68c013ee5187ce0758b8272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:20 +0000
Subject: [PATCH 18/22] fix: send the request at least once

---
 client/exp_rt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client/exp_rt.go b/client/exp_rt.go
index 1ea0393..cb6be47 100644
--- a/client/exp_rt.go
+++ b/client/exp_rt.go
@@ -60,7 +60,7 @@ func (p *ExponentialRoundTripper) RoundTrip(req *http.Request) (*http.Response,
 	var resp *http.Response
 	var err error
 
-	for cnt := 0; cnt < p.maxRetryCount; cnt++ {
+	for cnt := 0; cnt == 0 || cnt < p.maxRetryCount; cnt++ {
 		if resp != nil {
 			// this response is going to be replaced
 			io.Copy(ioutil.Discard, resp.Body)
-- 
2.43.0


From 807af3ba4120d8116b54f08e6fa51ba0ec7ca9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:49 +0000
Subject: [PATCH 19/22] fix: reject a refresh or purge period which is not
 positive

---
 jwk/option.go    | 3 +++
 policy/option.go | 6 ++++++
 pubkey/option.go | 6 ++++++
 3 files changed, 15 insertions(+)

diff --git a/jwk/option.go b/jwk/option.go
index 0f3ec9f..0245589 100644
--- a/jwk/option.go
+++ b/jwk/option.go
@@ -62,6 +62,9 @@ func WithRefreshPeriod(t string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rd <= 0 {
+			return errors.Errorf("invalid refresh period, %s is not positive", rd)
+		}
 		j.refreshPeriod = rd
 		return nil
 	}
diff --git a/policy/option.go b/policy/option.go
index 683e094..c47b6e5 100644
--- a/policy/option.go
+++ b/policy/option.go
@@ -97,6 +97,9 @@ func WithRefreshPeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rp <= 0 {
+			return errors.Errorf("invalid refresh period, %s is not positive", rp)
+		}
 		pol.refreshPeriod = rp
 		return nil
 	}
@@ -112,6 +115,9 @@ func WithPurgePeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid purge period")
 		}
+		if pp <= 0 {
+			return errors.Errorf("invalid purge period, %s is not positive", pp)
+		}
 		pol.purgePeriod = pp
 		return nil
 	}
diff --git a/pubkey/option.go b/pubkey/option.go
index 0bf4a7c..ccb194f 100644
--- a/pubkey/option.go
+++ b/pubkey/option.go
@@ -72,6 +72,9 @@ func WithRefreshPeriod(t string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid refresh period")
 		}
+		if rd <= 0 {
+			return errors.Errorf("invalid refresh period, %s is not positive", rd)
+		}
 		p.refreshPeriod = rd
 		return nil
 	}
@@ -120,6 +123,9 @@ func WithETagPurgePeriod(d string) Option {
 		if err != nil {
 			return errors.Wrap(err, "invalid ETag purge period")
 		}
+		if epp <= 0 {
+			return errors.Errorf("invalid ETag purge period, %s is not positive", epp)
+		}
 		p.eTagPurgePeriod = epp
 		return nil
 	}
-- 
2.43.0


From 99576dc77109d7c90a92c37ef5a5b2bec2237501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:50 +0000
Subject: [PATCH 20/22] fix: reject a cache expiry which is not positive

---
 option.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/option.go b/option.go
index 6cbb141..2c964ab 100644
--- a/option.go
+++ b/option.go
@@ -17,6 +17,7 @@ limitations under the License.
 package authorizerd
 
 import (
+	"fmt"
 	"net/http"
 	"time"
 
@@ -92,6 +93,9 @@ func WithHTTPClient(c *http.Client) Option {
 // WithCacheExp returns a CacheExp functional option
 func WithCacheExp(exp time.Duration) Option {
 	return func(authz *authority) error {
+		if exp/2 <= 0 { // half of it is the purge period, and the cache never expires an entry if it is not positive
+			return fmt.Errorf("invalid cache expiry, %s is not positive", exp)
+		}
 		authz.cache.SetDefaultExpire(exp)
 		authz.cacheExp = exp
 		return nil
-- 
2.43.0


From dc2a46f9cefbe6c1f48f138ecbe7f32272a1450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:58 +0000
Subject: [PATCH 21/22] fix: return an error instead of panicking without a key
 provider

---
 access/processor.go     | 3 +++
 policy/signed_policy.go | 3 +++
 role/processor.go       | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/access/processor.go b/access/processor.go
index 3008aa4..b5efb7d 100644
--- a/access/processor.go
+++ b/access/processor.go
@@ -203,6 +203,9 @@ func (a *atp) keyFunc(token *jwt.Token) (interface{}, error) {
 		return nil, errors.New(err.Error() + ":" + jws.JWKSetURLKey)
 	}
 
+	if a.jwkp == nil {
+		return nil, errors.New("no jwk provider to verify access token")
+	}
 	key := a.jwkp(keyID, jwkSetURL)
 
 	if key == nil {
diff --git a/policy/signed_policy.go b/policy/signed_policy.go
index 73b9690..d52271c 100644
--- a/policy/signed_policy.go
+++ b/policy/signed_policy.go
@@ -49,6 +49,9 @@ func (s *SignedPolicy) Verify(pkp pubkey.Provider) error {
 	}
 
 	// verify signed policy data
+	if pkp == nil {
+		return errors.New("no public key provider")
+	}
 	ver := pkp(pubkey.EnvZTS, s.KeyId)
 	if ver == nil {
 		return errors.New("zts key not found")
diff --git a/role/processor.go b/role/processor.go
index 6aeb539..9409039 100644
--- a/role/processor.go
+++ b/role/processor.go
@@ -84,6 +84,9 @@ func (r *rtp) validate(rt *Token) error {
 	if rt.Expired() {
 		return errors.Wrapf(ErrRoleTokenExpired, "token expired. principal %s", rt.Principal)
 	}
+	if r.pkp == nil {
+		return errors.Wrap(ErrRoleTokenInvalid, "no public key provider to verify role token")
+	}
 	ver := r.pkp(pubkey.EnvZTS, rt.KeyID)
 	if ver == nil {
 		return errors.Wrapf(ErrRoleTokenInvalid, "invalid role token key ID %s. principal %s", rt.KeyID, rt.Principal)
-- 
2.43.0


From 5401a36da9548ccd52714ac1159a5737fdb3d596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:55 +0000
Subject: [PATCH 22/22] fix: forget the remembered ETag when newer public keys
 come without one

---
 pubkey/daemon.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pubkey/daemon.go b/pubkey/daemon.go
index 1cdf243..0175c3a 100644
--- a/pubkey/daemon.go
+++ b/pubkey/daemon.go
@@ -300,6 +300,9 @@ func (p *pubkeyd) fetchPubKeyEntries(ctx context.Context, env AthenzEnv) (*SysAu
 	if eTag != "" {
 		glg.Debugf("Setting ETag %v", eTag)
 		p.eTagCache.SetWithExpire(string(env), &confCache{eTag, sac}, p.eTagExpiry)
+	} else {
+		// the remembered ETag is the one of other keys
+		p.eTagCache.Delete(string(env))
 	}
 
 	glg.Info("Fetch public key entries success")
-- 
2.43.0

