A = "authorizerd.go"; P = "policy/daemon.go"; F = "policy/fetcher.go"; PA = "policy/assertion.go"; SP = "policy/signed_policy.go"; O = "option.go"; M = "mask.go"; PR = "principal.go"
K = "pubkey/daemon.go"; J = "jwk/daemon.go"; C = "client/exp_rt.go"; T = "translator.go"; AP = "access/processor.go"; RP = "role/processor.go"; RT = "role/token.go"; CL = "access/claim.go"
KO = "pubkey/option.go"; JO = "jwk/option.go"; PO = "policy/option.go"; AO = "access/option.go"
R = {
# authorizerd.go
"principal-ctor": [(A, '''		p = &principal{
			name:       rt.Principal,
			roles:      rt.Roles,
			domain:     rt.Domain,
			issueTime:  rt.TimeStamp.Unix(),
			expiryTime: rt.ExpiryTime.Unix(),
		}
''', '''		base := newPrincipal(rt.Principal, rt.Roles, rt.Domain, rt.TimeStamp.Unix(), rt.ExpiryTime.Unix())
		p = &base
'''), (A, '''			principal: principal{
				name:       ac.Subject,
				roles:      ac.Scope,
				domain:     ac.Audience,
				issueTime:  ac.IssuedAt,
				expiryTime: ac.ExpiresAt,
			},
''', '''			principal: newPrincipal(ac.Subject, ac.Scope, ac.Audience, ac.IssuedAt, ac.ExpiresAt),
'''), (A, '''// Verify returns error of verification.''', '''func newPrincipal(name string, roles []string, domain string, iat, exp int64) principal {
	return principal{name: name, roles: roles, domain: domain, issueTime: iat, expiryTime: exp}
}

// Verify returns error of verification.''')],
"roles-by-pointer": [(A, '''		domain string
		roles  []string
		p      Principal
''', '''		domain string
		roles  []string
		p      Principal
		base   *principal
'''), (A, '''		p = &principal{
			name: ''', '''		base = &principal{
			name: '''), (A, '''			expiryTime: rt.ExpiryTime.Unix(),
		}
''', '''			expiryTime: rt.ExpiryTime.Unix(),
		}
		p = base
'''), (A, '''		p = &oAuthAccessToken{''', '''		oat := &oAuthAccessToken{'''), (A, '''			clientID: ac.ClientID,
		}
''', '''			clientID: ac.ClientID,
		}
		p, base = oat, &oat.principal
'''), (A, '''		switch typedP := p.(type) {
		case *principal:
			typedP.authorizedRoles = authorizedRoles
		case *oAuthAccessToken:
			typedP.authorizedRoles = authorizedRoles
		}
''', '''		if base != nil {
			base.authorizedRoles = authorizedRoles
		}
''')],
"roles-if-assert": [(A, '''		switch typedP := p.(type) {
		case *principal:
			typedP.authorizedRoles = authorizedRoles
		case *oAuthAccessToken:
			typedP.authorizedRoles = authorizedRoles
		}
''', '''		if at, ok := p.(*oAuthAccessToken); ok {
			at.authorizedRoles = authorizedRoles
		} else if rt, ok := p.(*principal); ok {
			rt.authorizedRoles = authorizedRoles
		}
''')],
"key-var": [(A, '''	cached, ok := a.cache.Get(key.String())
	if ok {
''', '''	cacheKey := key.String()
	if cached, ok := a.cache.Get(cacheKey); ok {
'''), (A, '''	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
''', '''	a.cache.SetWithExpire(cacheKey, p, a.cacheExp)
''')],
"named-result": [(A, '''func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query string, cert *x509.Certificate) (Principal, error) {
	var key strings.Builder
''', '''func (a *authority) authorize(ctx context.Context, m mode, tok, act, res, query string, cert *x509.Certificate) (result Principal, rerr error) {
	defer func() {
		if rerr != nil {
			glg.Debugf("authorization failed, domain has no access, mode: %d", m)
		}
	}()
	var key strings.Builder
''')],
"init-err-first": [(A, '''		select {
		case <-egCtx.Done():
			return egCtx.Err()
		default:
			if !a.disablePubkeyd {
				err := a.pubkeyd.Update(egCtx)
				if err != nil {
					return err
				}
			}
			if !a.disablePolicyd {
				return a.policyd.Update(egCtx)
			}
			return nil
		}
''', '''		if err := egCtx.Err(); err != nil {
			return err
		}
		if !a.disablePubkeyd {
			if err := a.pubkeyd.Update(egCtx); err != nil {
				return err
			}
		}
		if a.disablePolicyd {
			return nil
		}
		return a.policyd.Update(egCtx)
''')],
"start-forward-fn": [(A, '''	go func() {
		defer close(ech)
		for {
			select {
			case <-ctx.Done():
				g.Stop()''', '''	forward := func(err error, msg string) {
		if err == nil {
			return
		}
		ech <- errors.Wrap(err, msg)
	}

	go func() {
		defer close(ech)
		for {
			select {
			case <-ctx.Done():
				g.Stop()'''), (A, '''				if err != nil {
					ech <- errors.Wrap(err, "update pubkey error")
				}
''', '''				forward(err, "update pubkey error")
'''), (A, '''				if err != nil {
					ech <- errors.Wrap(err, "update policy error")
				}
''', '''				forward(err, "update policy error")
'''), (A, '''				if err != nil {
					ech <- errors.Wrap(err, "update jwk error")
				}
''', '''				forward(err, "update jwk error")
''')],
"rolecert-seen-nested": [(A, '''	drcheck := make(map[[2]string]struct{})
''', '''	drcheck := make(map[string]map[string]bool)
'''), (A, '''		// duplicated role check
		domainRole := [2]string{domain, roleName}
		if _, ok := drcheck[domainRole]; !ok {
			domainRoles[domain] = append(domainRoles[domain], roleName)
			drcheck[domainRole] = struct{}{}
		}
''', '''		// duplicated role check
		if drcheck[domain] == nil {
			drcheck[domain] = make(map[string]bool)
		}
		if drcheck[domain][roleName] {
			return
		}
		drcheck[domain][roleName] = true
		domainRoles[domain] = append(domainRoles[domain], roleName)
''')],
"getcache-early": [(A, '''	if !a.disablePolicyd {
		return a.policyd.GetPolicyCache(ctx)
	} else {
		return make(map[string]interface{})
	}
''', '''	if a.disablePolicyd {
		return map[string]interface{}{}
	}
	return a.policyd.GetPolicyCache(ctx)
''')],
"verify-named": [(A, '''	for _, verifier := range a.authorizers {
		// OR logic on multiple credentials
		_, err := verifier(r, act, res)
		if err == nil {
			return nil
		}
	}

	return ErrInvalidCredentials
''', '''	err := error(ErrInvalidCredentials)
	for i := 0; i < len(a.authorizers) && err != nil; i++ {
		// OR logic on multiple credentials
		if _, verr := a.authorizers[i](r, act, res); verr == nil {
			err = nil
		}
	}
	return err
''')],
# policy
"worker-decide": [(P, '''					for _, ass := range asss.([]*Assertion) {
						glg.Debugf("Checking policy domain: %s, role: %v, action: %s, resource: %s, assertion: %v", domain, roles, action, resource, ass)
						select {
						case <-cctx.Done():
							ch <- roleEffect{Role: role, Effect: cctx.Err()}
							return
						default:
							// deny policies come first in rolePolicies, so it will return first before allow policies is checked
							if strings.EqualFold(ass.ResourceDomain, domain) &&
								ass.ActionRegexp.MatchString(strings.ToLower(action)) &&
								ass.ResourceRegexp.MatchString(strings.ToLower(resource)) {
								ch <- roleEffect{Role: role, Effect: ass.Effect}
								return
							}
						}
					}
''', '''					if effect, decided := firstMatch(cctx, asss.([]*Assertion), domain, action, resource); decided {
						ch <- roleEffect{Role: role, Effect: effect}
					}
'''), (P, '''// GetPolicyCache returns''', '''// firstMatch returns the effect of the first assertion that matches.
func firstMatch(ctx context.Context, asss []*Assertion, domain, action, resource string) (error, bool) {
	for _, ass := range asss {
		select {
		case <-ctx.Done():
			return ctx.Err(), true
		default:
		}
		if !strings.EqualFold(ass.ResourceDomain, domain) {
			continue
		}
		if ass.ActionRegexp.MatchString(strings.ToLower(action)) && ass.ResourceRegexp.MatchString(strings.ToLower(resource)) {
			return ass.Effect, true
		}
	}
	return nil, false
}

// GetPolicyCache returns''')],
"roles-errgroup": [(P, '''		wg := new(sync.WaitGroup)
		wg.Add(len(roles))
''', '''		eg := new(errgroup.Group)
'''), (P, '''			go func(role string, ch chan<- roleEffect) {
				defer wg.Done()
				select {''', '''			role, ch := role, (chan<- roleEffect)(ech)
			eg.Go(func() error {
				select {'''), (P, '''					ch <- roleEffect{Role: role, Effect: cctx.Err()}
					return
				default:
					asss, ok := rp.Get(dr)
					if !ok {
						return
					}
''', '''					ch <- roleEffect{Role: role, Effect: cctx.Err()}
					return nil
				default:
					asss, ok := rp.Get(dr)
					if !ok {
						return nil
					}
'''), (P, '''							ch <- roleEffect{Role: role, Effect: cctx.Err()}
							return
						default:''', '''							ch <- roleEffect{Role: role, Effect: cctx.Err()}
							return nil
						default:'''), (P, '''								ch <- roleEffect{Role: role, Effect: ass.Effect}
								return
							}
						}
					}
				}
			}(role, ech)
		}
		wg.Wait()
''', '''								ch <- roleEffect{Role: role, Effect: ass.Effect}
								return nil
							}
						}
					}
				}
				return nil
			})
		}
		_ = eg.Wait()
''')],
"dedupe-func": [(P, '''	eg := errgroup.Group{}
	assm := new(sync.Map) // assertion map

	// simplify signed policy cache
	for _, policy := range''', '''	assm, err := dedupe(ctx, sp)
	if err != nil {
		return errors.Wrap(err, "error simplify and cache policy")
	}

	// cache
	var retErr error
	now := fastime.Now()
	assm.Range(func(k interface{}, val interface{}) bool {
		ass := val.(*util.Assertion)
		a, err := NewAssertion(ass.Action, ass.Resource, ass.Effect)
		if err != nil {
			glg.Debugf("error adding assertion to the cache, err: %v", err)
			retErr = err
			return false
		}

		// an expired policy must not be used, and a duration <= 0 means no expiry in the cache
		ttl := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now)
		if ttl <= 0 {
			glg.Warnf("policy already expired, role: %s", ass.Role)
			return false
		}

		var asss []*Assertion
		if p, ok := rp.Get(ass.Role); ok {
			asss = p.([]*Assertion)
			if a.Effect == nil {
				asss = append(asss, a) // append allowed policies to the end of the slice
			} else {
				asss = append([]*Assertion{a}, asss...) // append denied policies to the head
			}
		} else {
			asss = []*Assertion{a}
		}
		rp.SetWithExpire(ass.Role, asss, ttl)

		glg.Debugf("added assertion to the tmp cache: %+v", ass)
		return true
	})
	return retErr
}

// dedupe merges equal assertions of all policies, deny wins.
func dedupe(ctx context.Context, sp *SignedPolicy) (*sync.Map, error) {
	eg := errgroup.Group{}
	assm := new(sync.Map) // assertion map

	// simplify signed policy cache
	for _, policy := range'''), (P, '''	if err := eg.Wait(); err != nil {
		return errors.Wrap(err, "error simplify and cache policy")
	}

	// cache
	var retErr error
	now := fastime.Now()
	assm.Range(func(k interface{}, val interface{}) bool {
		ass := val.(*util.Assertion)
		a, err := NewAssertion(ass.Action, ass.Resource, ass.Effect)
		if err != nil {
			glg.Debugf("error adding assertion to the cache, err: %v", err)
			retErr = err
			return false
		}

		// an expired policy must not be used, and a duration <= 0 means no expiry in the cache
		ttl := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now)
		if ttl <= 0 {
			glg.Warnf("policy already expired, role: %s", ass.Role)
			return false
		}

		var asss []*Assertion
		if p, ok := rp.Get(ass.Role); ok {
			asss = p.([]*Assertion)
			if a.Effect == nil {
				asss = append(asss, a) // append allowed policies to the end of the slice
			} else {
				asss = append([]*Assertion{a}, asss...) // append denied policies to the head
			}
		} else {
			asss = []*Assertion{a}
		}
		rp.SetWithExpire(ass.Role, asss, ttl)

		glg.Debugf("added assertion to the tmp cache: %+v", ass)
		return true
	})
	if retErr != nil {
		return retErr
	}

	return nil
}''', '''	if err := eg.Wait(); err != nil {
		return nil, err
	}
	return assm, nil
}''')],
"task-method": [(P, '''			eg.Go(func() error {
				select {
				case <-ctx.Done():
					glg.Info("Update policy interrupted")
					return ctx.Err()
				default:
					return fetchAndCachePolicy(ctx, rp, f)
				}
			})
''', '''			eg.Go(fetchTask(ctx, rp, f))
'''), (P, '''// currentRolePolicies returns the''', '''func fetchTask(ctx context.Context, rp gache.Gache, f Fetcher) func() error {
	return func() error {
		if err := ctx.Err(); err != nil {
			glg.Info("Update policy interrupted")
			return err
		}
		return fetchAndCachePolicy(ctx, rp, f)
	}
}

// currentRolePolicies returns the''')],
"hook-var": [(P, '''	rp.StartExpired(ctx, p.purgePeriod).
		EnableExpiredHook().
		SetExpiredHook(func(ctx context.Context, key string) {
''', '''	refresh := func(ctx context.Context, key string) {
'''), (P, '''				return true
			})
		})

	// swap pointer
''', '''				return true
			})
		}
	rp.StartExpired(ctx, p.purgePeriod).EnableExpiredHook().SetExpiredHook(refresh)

	// swap pointer
''')],
"hook-split": [(P, '''			f, ok := p.fetchers[strings.Split(key, ":role.")[0]]
''', '''			dom := strings.SplitN(key, ":role.", 2)[0]
			f, ok := p.fetchers[dom]
''')],
"hook-exp-before": [(P, '''				if ttl := time.Unix(0, exp).Sub(fastime.Now()); ttl > 0 {
					cur.SetWithExpire(role, asss, ttl)
				}
				return true
''', '''				ttl := time.Unix(0, exp).Sub(fastime.Now())
				if ttl <= 0 {
					return true
				}
				cur.SetWithExpire(role, asss, ttl)
				return true
''')],
"retry-count-up": [(F, '''	for i := -1; i < f.retryAttempts; i++ {
		sp, err := f.Fetch(ctx)
		if err == nil {
			return sp, nil
		}

		lastErr = err
		time.Sleep(f.retryDelay)
	}
''', '''	for attempt := 0; attempt <= f.retryAttempts; attempt++ {
		var sp *SignedPolicy
		if sp, lastErr = f.Fetch(ctx); lastErr == nil {
			return sp, nil
		}
		time.Sleep(f.retryDelay)
	}
''')],
"tagged-ctor": [(F, '''	newTp := &taggedPolicy{
		eTag:       eTag,
		eTagExpiry: eTagExpiry,
		sp:         sp,
		ctime:      fastime.Now(),
	}
''', '''	newTp := newTaggedPolicy(eTag, eTagExpiry, sp)
'''), (F, '''func (t *taggedPolicy) String() string {''', '''func newTaggedPolicy(eTag string, expiry time.Time, sp *SignedPolicy) *taggedPolicy {
	t := new(taggedPolicy)
	t.eTag, t.eTagExpiry = eTag, expiry
	t.sp = sp
	t.ctime = fastime.Now()
	return t
}

func (t *taggedPolicy) String() string {''')],
"flush-early": [(F, '''	if rc != nil {
		// flush
		_, err := io.Copy(ioutil.Discard, rc)
		// close
		if cerr := rc.Close(); err == nil {
			err = cerr
		}
		return err
	}
	return nil
''', '''	if rc == nil {
		return nil
	}
	_, ferr := io.Copy(ioutil.Discard, rc)
	cerr := rc.Close()
	if ferr != nil {
		return ferr
	}
	return cerr
''')],
"fail-helper": [(F, '''	if res.StatusCode != http.StatusOK {
		errMsg := "fetch policy HTTP response != 200 OK"
		glg.Errorf("%s, domain: %s, status: %d", errMsg, f.domain, res.StatusCode)
		return nil, errors.Wrap(ErrFetchPolicy, errMsg)
	}
''', '''	if err := checkStatus(res, f.domain); err != nil {
		return nil, err
	}
'''), (F, '''func (t *taggedPolicy) String() string {''', '''func checkStatus(res *http.Response, domain string) error {
	if res.StatusCode == http.StatusOK {
		return nil
	}
	errMsg := "fetch policy HTTP response != 200 OK"
	glg.Errorf("%s, domain: %s, status: %d", errMsg, domain, res.StatusCode)
	return errors.Wrap(ErrFetchPolicy, errMsg)
}

func (t *taggedPolicy) String() string {''')],
"sp-local": [(SP, '''	if s.SignedPolicyData == nil {
		return errors.New("no policy data")
	}
''', '''	data := s.SignedPolicyData
	if data == nil {
		return errors.New("no policy data")
	}
'''), (SP, '''	if s.SignedPolicyData.Expires == nil {''', '''	if data.Expires == nil {'''), (SP, '''	if s.SignedPolicyData.Expires.Time.Sub(fastime.Now()) <= 0 {''', '''	if left := data.Expires.Time.Sub(fastime.Now()); left <= 0 {'''), (SP, '''	ver = pkp(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId)
	if ver == nil {''', '''	zmsVer := pkp(pubkey.EnvZMS, data.ZmsKeyId)
	if zmsVer == nil {'''), (SP, '''	if err := ver.Verify((string)(pd), s.SignedPolicyData.ZmsSignature); err != nil {''', '''	if err := zmsVer.Verify(string(pd), data.ZmsSignature); err != nil {''')],
"glob-map": [(PA, '''		if c == '*' {
			sb.WriteString(".*")
		} else if c == '?' {
			sb.WriteString(".")
		} else {
			if isRegexMetaCharacter(c) {
				sb.WriteString("\\\\")
			}
			sb.WriteRune(c)
		}
''', '''		sb.WriteString(translateRune(c))
'''), (PA, '''func patternFromGlob(''', '''func translateRune(c rune) string {
	switch {
	case c == '*':
		return ".*"
	case c == '?':
		return "."
	case isRegexMetaCharacter(c):
		return "\\\\" + string(c)
	}
	return string(c)
}

func patternFromGlob(''')],
# pubkey
"cache-of": [(K, '''	updConf := func(env AthenzEnv, cache *sync.Map) (err error) {
''', '''	updConf := func(env AthenzEnv) (err error) {
		cache := p.keysOf(env)
'''), (K, '''updConf(EnvZTS, p.confCache.ZTSPubKeys)''', '''updConf(EnvZTS)'''), (K, '''updConf(EnvZMS, p.confCache.ZMSPubKeys)''', '''updConf(EnvZMS)'''), (K, '''	if env == EnvZTS {
		ver, ok := p.confCache.ZTSPubKeys.Load(keyID)
		if !ok {
			glg.Warnf("ZTS PubKey Load Failed keyID[%s]  getZTSPubKey %v", keyID, ver)
			return nil
		}
		return ver.(authcore.Verifier)
	}

	ver, ok := p.confCache.ZMSPubKeys.Load(keyID)
	if !ok {
		glg.Warnf("ZMS PubKey Load Failed keyID[%s]  getZMSPubKey %v", keyID, ver)
		return nil
	}
	return ver.(authcore.Verifier)
}''', '''	ver, ok := p.keysOf(env).Load(keyID)
	if !ok {
		glg.Warnf("%v PubKey Load Failed keyID[%s]", env, keyID)
		return nil
	}
	return ver.(authcore.Verifier)
}

// keysOf returns the keys of a service.
func (p *pubkeyd) keysOf(env AthenzEnv) *sync.Map {
	if env == EnvZTS {
		return p.confCache.ZTSPubKeys
	}
	return p.confCache.ZMSPubKeys
}''')],
"pub-new-request": [(K, '''	// ETag header
	t, ok := p.eTagCache.Get(string(env))
	if ok {
		eTag := t.(*confCache).eTag
		glg.Debugf("ETag %v found in the cache", eTag)
		req.Header.Set("If-None-Match", eTag)
	}

	r, err := p.client.Do(req.WithContext(ctx))
''', '''	// ETag header
	t, ok := p.eTagCache.Get(string(env))
	if ok {
		req.Header.Set("If-None-Match", t.(*confCache).eTag)
	}

	req = req.WithContext(ctx)
	r, err := p.client.Do(req)
''')],
"pub-keys-snapshot": [(K, '''		cm.Range(func(key interface{}, val interface{}) bool {
			cache.Store(key, val)
			return true
		})
		cache.Range(func(key interface{}, val interface{}) bool {
			_, ok := cm.Load(key)
			if !ok {
				cache.Delete(key)
			}
			return true
		})
''', '''		copyKeys := func(key, val interface{}) bool {
			cache.Store(key, val)
			return true
		}
		dropOld := func(key, _ interface{}) bool {
			if _, ok := cm.Load(key); !ok {
				cache.Delete(key)
			}
			return true
		}
		cm.Range(copyKeys)
		cache.Range(dropOld)
''')],
# jwk
"jwk-url-default": [(J, '''	var keys interface{}
	var ok bool
	if jwkSetURL == "" {
		keys, ok = j.keys.Load(j.athenzJwksURL)
	} else {
		keys, ok = j.keys.Load(jwkSetURL)
	}
''', '''	if jwkSetURL == "" {
		jwkSetURL = j.athenzJwksURL
	}
	keys, ok := j.keys.Load(jwkSetURL)
''')],
"jwk-guard-clauses": [(J, '''	key, found := keys.(jwk.Set).LookupKeyID(keyID)
	if found {
		var raw interface{}
		if err := key.Raw(&raw); err != nil {
			glg.Warnf("jwkd.getKey: %s", err.Error())
		} else {
			return raw
		}
	}
''', '''	key, found := keys.(jwk.Set).LookupKeyID(keyID)
	if !found {
		return nil
	}
	var raw interface{}
	err := key.Raw(&raw)
	if err == nil {
		return raw
	}
	glg.Warnf("jwkd.getKey: %s", err.Error())
''')],
"jwk-fail-count": [(J, '''	if len(failedTargets) > 0 {
		return errors''', '''	if n := len(failedTargets); n != 0 {
		glg.Warnf("%d URLs failed", n)
		return errors''')],
"jwk-update-named": [(J, '''		update := func() {
			if err := j.Update(ctx); err != nil {
				err =''', '''		update := func() {
			err := j.Update(ctx)
			if err == nil {
				return
			}
			{
				err =''')],
# access
"at-principal-times": [(AP, '''	if certActualIssueTime < atIssueTime {
		return errors.Errorf("error certificate: issued before access token: cert = %v, tok = %v", certActualIssueTime, atIssueTime)
	}
	// Issue time check. Determine if certificate's issue time is within an allowed range
	if certActualIssueTime > atIssueTime+a.clientCertificateOffsetSeconds {
		return errors.Errorf("error certificate: access token too old: cert = %v, offset = %v, tok = %v", certActualIssueTime, a.clientCertificateOffsetSeconds, atIssueTime)
	}
	return nil
''', '''	latest := atIssueTime + a.clientCertificateOffsetSeconds
	switch {
	case certActualIssueTime < atIssueTime:
		return errors.Errorf("error certificate: issued before access token: cert = %v, tok = %v", certActualIssueTime, atIssueTime)
	case latest < certActualIssueTime:
		// Determine if certificate's issue time is within an allowed range
		return errors.Errorf("error certificate: access token too old: cert = %v, offset = %v, tok = %v", certActualIssueTime, a.clientCertificateOffsetSeconds, atIssueTime)
	default:
		return nil
	}
''')],
"proxy-uris-first": [(AP, '''		valid := make(map[string]struct{}, len(proxyPrincipals))
		for _, value := range proxyPrincipals {
			if spiffe, ok := value.(string); ok {
				valid[spiffe] = struct{}{}
			}
		}
		for _, uri := range cert.URIs {
			if _, ok := valid[uri.String()]; ok {
				return nil
			}
		}
''', '''		for _, uri := range cert.URIs {
			name := uri.String()
			for _, value := range proxyPrincipals {
				if spiffe, ok := value.(string); ok && spiffe == name {
					return nil
				}
			}
		}
''')],
"cid-authorized-method": [(AP, '''	clientIDs := a.authorizedClientIDs[cn]

	for _, v := range clientIDs {
		if v == clientID {
			return nil
		}
	}
	return errors''', '''	if a.isAuthorized(cn, clientID) {
		return nil
	}
	return errors'''), (AP, '''// keyFunc extract''', '''func (a *atp) isAuthorized(cn, clientID string) bool {
	ids, ok := a.authorizedClientIDs[cn]
	if !ok {
		return false
	}
	for i := range ids {
		if ids[i] == clientID {
			return true
		}
	}
	return false
}

// keyFunc extract''')],
"claims-copy-nil": [(AP, '''	claims, ok := tok.Claims.(*OAuth2AccessTokenClaim)
	if !ok || !tok.Valid {
		return nil, errors.New("error invalid access token")
	}
''', '''	if !tok.Valid {
		return nil, errors.New("error invalid access token")
	}
	claims, ok := tok.Claims.(*OAuth2AccessTokenClaim)
	if !ok {
		return nil, errors.New("error invalid access token")
	}
''')],
# role
"rt-unix-helper": [(RT, '''		i, err := strconv.ParseInt(value, 10, 64)
		if err != nil {
			return errors.Wrap(err, "invalid expiry time")
		}
		r.ExpiryTime = time.Unix(i, 0)
''', '''		var err error
		if r.ExpiryTime, err = parseUnix(value); err != nil {
			return errors.Wrap(err, "invalid expiry time")
		}
'''), (RT, '''		i, err := strconv.ParseInt(value, 10, 64)
		if err != nil {
			return errors.Wrap(err, "invalid timestamp")
		}
		r.TimeStamp = time.Unix(i, 0)
''', '''		t, err := parseUnix(value)
		if err != nil {
			return errors.Wrap(err, "invalid timestamp")
		}
		r.TimeStamp = t
'''), (RT, '''// SetParams sets''', '''// parseUnix reads seconds since the epoch.
func parseUnix(value string) (t time.Time, err error) {
	sec, err := strconv.ParseInt(value, 10, 64)
	if err != nil {
		return t, err
	}
	return time.Unix(sec, 0), nil
}

// SetParams sets''')],
"rt-validate-steps": [(RP, '''	if r.pkp == nil {
		return errors.Wrap(ErrRoleTokenInvalid, "no public key provider to verify role token")
	}
	ver := r.pkp(pubkey.EnvZTS, rt.KeyID)
	if ver == nil {
		return errors.Wrapf(ErrRoleTokenInvalid, "invalid role token key ID %s. principal %s", rt.KeyID, rt.Principal)
	}
	return ver.Verify(rt.UnsignedToken, rt.Signature)
}''', '''	return r.verifySignature(rt)
}

func (r *rtp) verifySignature(rt *Token) error {
	if r.pkp == nil {
		return errors.Wrap(ErrRoleTokenInvalid, "no public key provider to verify role token")
	}
	if ver := r.pkp(pubkey.EnvZTS, rt.KeyID); ver != nil {
		return ver.Verify(rt.UnsignedToken, rt.Signature)
	}
	return errors.Wrapf(ErrRoleTokenInvalid, "invalid role token key ID %s. principal %s", rt.KeyID, rt.Principal)
}''')],
# translator
"tr-flags": [(T, '''OUTER:
	for _, rule''', '''	for _, rule'''), (T, '''			placeholderMap := make(map[string]string)
			for i, reqPath := range requestedPaths {
				if rule.splitPaths[i].isPlaceholder {
					placeholderMap[rule.splitPaths[i].name] = reqPath
				} else if reqPath != rule.splitPaths[i].name {
					continue OUTER
				}
			}

			for reqQuery, reqVal := range requestedQuery {
				// query multiple values is not allowed
				if len(reqVal) != 1 {
					continue OUTER
				}
				if v, ok := rule.queryValueMap[reqQuery]; ok {
					if v.isPlaceholder {
						placeholderMap[v.name] = reqVal[0]
					} else if reqVal[0] != v.name {
						continue OUTER
					}
				} else {
					continue OUTER
				}
			}

			return''', '''			placeholderMap := make(map[string]string)
			matched := true
			for i, reqPath := range requestedPaths {
				if rule.splitPaths[i].isPlaceholder {
					placeholderMap[rule.splitPaths[i].name] = reqPath
				} else if reqPath != rule.splitPaths[i].name {
					matched = false
					break
				}
			}
			if !matched {
				continue
			}

			for reqQuery, reqVal := range requestedQuery {
				v, ok := rule.queryValueMap[reqQuery]
				// query multiple values is not allowed
				if !ok || len(reqVal) != 1 {
					matched = false
					break
				}
				if v.isPlaceholder {
					placeholderMap[v.name] = reqVal[0]
				} else if reqVal[0] != v.name {
					matched = false
					break
				}
			}
			if !matched {
				continue
			}

			return''')],
"tr-two-helpers": [(T, '''			placeholderMap := make(map[string]string)
			for i, reqPath := range requestedPaths {
				if rule.splitPaths[i].isPlaceholder {
					placeholderMap[rule.splitPaths[i].name] = reqPath
				} else if reqPath != rule.splitPaths[i].name {
					continue OUTER
				}
			}

			for reqQuery, reqVal := range requestedQuery {
				// query multiple values is not allowed
				if len(reqVal) != 1 {
					continue OUTER
				}
				if v, ok := rule.queryValueMap[reqQuery]; ok {
					if v.isPlaceholder {
						placeholderMap[v.name] = reqVal[0]
					} else if reqVal[0] != v.name {
						continue OUTER
					}
				} else {
					continue OUTER
				}
			}

			return''', '''			placeholderMap := make(map[string]string)
			if !matchPath(rule.splitPaths, requestedPaths, placeholderMap) || !matchQuery(rule.queryValueMap, requestedQuery, placeholderMap) {
				continue OUTER
			}

			return'''), (T, '''// replacePlaceholders replaces''', '''func (p param) match(value string, found map[string]string) bool {
	if p.isPlaceholder {
		found[p.name] = value
		return true
	}
	return p.name == value
}

func matchPath(want []param, got []string, found map[string]string) bool {
	for i, seg := range got {
		if !want[i].match(seg, found) {
			return false
		}
	}
	return true
}

func matchQuery(want map[string]param, got url.Values, found map[string]string) bool {
	for name, vals := range got {
		if len(vals) != 1 {
			return false
		}
		p, ok := want[name]
		if !ok || !p.match(vals[0], found) {
			return false
		}
	}
	return true
}

// replacePlaceholders replaces''')],
"val-set-param": [(T, '''				if ok, err := rules[i].isPlaceholder(path); ok {
					rules[i].splitPaths[j] = param{name: path, isPlaceholder: true}
				} else {
					if err != nil {
						return err
					}
					rules[i].splitPaths[j] = param{name: path, isPlaceholder: false}
				}
''', '''				ok, err := rules[i].isPlaceholder(path)
				if err != nil {
					return err
				}
				rules[i].splitPaths[j] = param{name: path, isPlaceholder: ok}
'''), (T, '''				if ok, err := rules[i].isPlaceholder(val[0]); ok {
					rules[i].queryValueMap[p] = param{name: val[0], isPlaceholder: true}
				} else {
					if err != nil {
						return err
					}
					rules[i].queryValueMap[p] = param{name: val[0], isPlaceholder: false}
				}
''', '''				ok, err := rules[i].isPlaceholder(val[0])
				if err != nil {
					return err
				}
				rules[i].queryValueMap[p] = param{name: val[0], isPlaceholder: ok}
''')],
# client
"rt-should-retry": [(C, '''		if err != nil {
			if !isTemporary(err) {
				return nil, err
			}

			if !canRetry(dur, timeLimit) {
				return nil, err
			}

			time.Sleep(dur)
			continue
		}
''', '''		if err != nil {
			if isTemporary(err) && canRetry(dur, timeLimit) {
				time.Sleep(dur)
				continue
			}
			return nil, err
		}
''')],
"rt-break-cond": [(C, '''	for cnt := 0; cnt == 0 || cnt < p.maxRetryCount; cnt++ {
		if resp != nil {''', '''	for cnt := 0; ; cnt++ {
		if cnt > 0 && cnt >= p.maxRetryCount {
			break
		}
		if resp != nil {''')],
}
