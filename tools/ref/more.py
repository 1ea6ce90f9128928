A = "authorizerd.go"; P = "policy/daemon.go"; F = "policy/fetcher.go"; PA = "policy/assertion.go"; SP = "policy/signed_policy.go"
K = "pubkey/daemon.go"; J = "jwk/daemon.go"; C = "client/exp_rt.go"; T = "translator.go"; AP = "access/processor.go"; RP = "role/processor.go"; RT = "role/token.go"; CL = "access/claim.go"
R = {
# authorizerd.go
"key-cert-early": [(A, '''	if cert != nil {
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(cert.Issuer.CommonName))
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(cert.Subject.CommonName))
		if len(cert.Raw) != 0 {
			// the certificate checks depend on the whole certificate, not only on its names
			sum := sha256.Sum256(cert.Raw)
			key.WriteString(cacheKeyCertMark)
			key.WriteString(hex.EncodeToString(sum[:]))
		}
	}
''', '''	writeCert(&key, cert)
'''), (A, '''// Verify returns error of verification. Returns''', '''func writeCert(key *strings.Builder, cert *x509.Certificate) {
	if cert == nil {
		return
	}
	for _, n := range []string{cert.Issuer.CommonName, cert.Subject.CommonName} {
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(n))
	}
	if len(cert.Raw) > 0 {
		sum := sha256.Sum256(cert.Raw)
		key.WriteString(cacheKeyCertMark + hex.EncodeToString(sum[:]))
	}
}

// Verify returns error of verification. Returns''')],
"key-join": [(A, '''		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(act))
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(res))
''', '''		key.WriteString(strings.Join([]string{"", cacheKeyEscaper.Replace(act), cacheKeyEscaper.Replace(res)}, string(cacheKeyDelimiter)))
''')],
"authorize-split": [(A, '''	var (
		domain string
		roles  []string
		p      Principal
	)

	switch m {
	case roleToken:
''', '''	p, err := a.process(m, tok, cert)
	if err != nil {
		return nil, err
	}
	domain, roles := p.Domain(), p.Roles()

	if !a.disablePolicyd {
		if a.translator != nil {
			var err error
			act, res, err = a.translator.Translate(domain, act, res, query)
			if err != nil {
				glg.Infof("translator error, err: %v, principal: %s, action: %s, resource: %s", err, p.Name(), act, res)
				return nil, err
			}
		}

		res = a.resourcePrefix + res
		authorizedRoles, err := a.policyd.CheckPolicyRoles(ctx, domain, roles, act, res)
		if err != nil {
			glg.Infof("check policy error, err: %v, principal: %s, action: %s, resource: %s", err, p.Name(), act, res)
			return nil, errors.Wrap(err, "token unauthorized")
		}

		switch typedP := p.(type) {
		case *principal:
			typedP.authorizedRoles = authorizedRoles
		case *oAuthAccessToken:
			typedP.authorizedRoles = authorizedRoles
		}
	}

	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
	return p, nil
}

func (a *authority) process(m mode, tok string, cert *x509.Certificate) (Principal, error) {
	switch m {
	case roleToken:
'''), (A, '''		domain = rt.Domain
		roles = rt.Roles
		p = &principal{''', '''		return &principal{'''), (A, '''			expiryTime: rt.ExpiryTime.Unix(),
		}
''', '''			expiryTime: rt.ExpiryTime.Unix(),
		}, nil
'''), (A, '''		domain = ac.Audience
		roles = ac.Scope
		p = &oAuthAccessToken{''', '''		return &oAuthAccessToken{'''), (A, '''			clientID: ac.ClientID,
		}
	}

	if !a.disablePolicyd {
		if a.translator != nil {
			var err error
			act, res, err = a.translator.Translate(domain, act, res, query)
			if err != nil {
				glg.Infof("translator error, err: %v, principal: %s, action: %s, resource: %s", err, p.Name(), act, res)
				return nil, err
			}
		}

		res = a.resourcePrefix + res
		authorizedRoles, err := a.policyd.CheckPolicyRoles(ctx, domain, roles, act, res)
		if err != nil {
			glg.Infof("check policy error, err: %v, principal: %s, action: %s, resource: %s", err, p.Name(), act, res)
			return nil, errors.Wrap(err, "token unauthorized")
		}

		switch typedP := p.(type) {
		case *principal:
			typedP.authorizedRoles = authorizedRoles
		case *oAuthAccessToken:
			typedP.authorizedRoles = authorizedRoles
		}
	}

	glg.DebugFunc(func() string {
		return fmt.Sprintf("set token result. masked tok: %s, masked key: %s, act: %s, res: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok), act, res)
	})
	a.cache.SetWithExpire(key.String(), p, a.cacheExp)
	return p, nil
}
''', '''			clientID: ac.ClientID,
		}, nil
	}
	return nil, errors.Wrap(ErrInvalidCredentials, "unknown token")
}
''')],
"translate-helper": [(A, '''		if a.translator != nil {
			var err error
			act, res, err = a.translator.Translate(domain, act, res, query)
			if err != nil {
				glg.Infof("translator error, err: %v, principal: %s, action: %s, resource: %s", err, p.Name(), act, res)
				return nil, err
			}
		}

		res = a.resourcePrefix + res
''', '''		var err error
		if act, res, err = a.target(domain, act, res, query); err != nil {
			glg.Infof("translator error, err: %v, principal: %s", err, p.Name())
			return nil, err
		}
'''), (A, '''// Verify returns error of verification. Returns''', '''func (a *authority) target(domain, act, res, query string) (string, string, error) {
	if a.translator == nil {
		return act, a.resourcePrefix + res, nil
	}
	tact, tres, err := a.translator.Translate(domain, act, res, query)
	if err != nil {
		return "", "", err
	}
	return tact, a.resourcePrefix + tres, nil
}

// Verify returns error of verification. Returns''')],
"disabled-first": [(A, '''	if !a.disablePolicyd {
		if a.translator != nil {
			var err error''', '''	if a.disablePolicyd {
		a.cache.SetWithExpire(key.String(), p, a.cacheExp)
		return p, nil
	}
	{
		if a.translator != nil {
			var err error''')],
"set-roles-iface": [(A, '''		switch typedP := p.(type) {
		case *principal:
			typedP.authorizedRoles = authorizedRoles
		case *oAuthAccessToken:
			typedP.authorizedRoles = authorizedRoles
		}
''', '''		if s, ok := p.(interface{ setAuthorizedRoles([]string) }); ok {
			s.setAuthorizedRoles(authorizedRoles)
		}
'''), ("principal.go", '''// Name returns the principal's name''', '''func (p *principal) setAuthorizedRoles(r []string) {
	p.authorizedRoles = r
}

// Name returns the principal's name''')],
"verify-by-authorize": [(A, '''	for _, verifier := range a.authorizers {
		// OR logic on multiple credentials
		_, err := verifier(r, act, res)
		if err == nil {
			return nil
		}
	}

	return ErrInvalidCredentials
''', '''	_, err := a.Authorize(r, act, res)
	return err
''')],
"verify-ok-flag": [(A, '''		verified, err := verifier(r, act, res)
		if err == nil {
			return verified, nil
		}
''', '''		verified, err := verifier(r, act, res)
		if err != nil {
			glg.Debugf("authorizer failed: %v", err)
			continue
		}
		return verified, nil
''')],
"at-cert-var": [(A, '''			if r.TLS != nil && len(r.TLS.PeerCertificates) != 0 {
				return a.authorize(r.Context(), accessToken, tokenString, act, res, r.URL.RawQuery, r.TLS.PeerCertificates[0])
			}
			return a.authorize(r.Context(), accessToken, tokenString, act, res, r.URL.RawQuery, nil)
''', '''			var cert *x509.Certificate
			if r.TLS != nil && len(r.TLS.PeerCertificates) > 0 {
				cert = r.TLS.PeerCertificates[0]
			}
			return a.authorize(r.Context(), accessToken, tokenString, act, res, r.URL.RawQuery, cert)
''')],
"rc-certs-var": [(A, '''			if r.TLS != nil {
				return a.AuthorizeRoleCert(r.Context(), r.TLS.PeerCertificates, act, res)
			}
			return a.AuthorizeRoleCert(r.Context(), nil, act, res)
''', '''			var certs []*x509.Certificate
			if r.TLS != nil {
				certs = r.TLS.PeerCertificates
			}
			return a.AuthorizeRoleCert(r.Context(), certs, act, res)
''')],
"rolecert-roles-func": [(A, '''	var err error
	for domain, roles := range domainRoles {
		// TODO futurework
		if err = a.policyd.CheckPolicy(ctx, domain, roles, act, res); err == nil {
			return nil
		}
	}

	return errors.Wrap(err, "role certificates unauthorized")
''', '''	return errors.Wrap(a.anyDomain(ctx, domainRoles, act, res), "role certificates unauthorized")
'''), (A, '''// AuthorizeRoleCert verifies the role certificate for specific''', '''func (a *authority) anyDomain(ctx context.Context, domainRoles map[string][]string, act, res string) (err error) {
	for domain, roles := range domainRoles {
		err = a.policyd.CheckPolicy(ctx, domain, roles, act, res)
		if err == nil {
			return nil
		}
	}
	return err
}

// AuthorizeRoleCert verifies the role certificate for specific''')],
"init-methods": [(A, '''	eg.Go(func() error {
		select {
		case <-egCtx.Done():
			return egCtx.Err()
		default:
			if !a.disablePubkeyd {
				err := a.pubkeyd.Update(egCtx)
				if err != nil {
					return err
				}
			}
			if !a.disablePolicyd {
				return a.policyd.Update(egCtx)
			}
			return nil
		}
	})
''', '''	eg.Go(func() error { return a.initPolicies(egCtx) })
'''), (A, '''// Start starts authority daemon.''', '''func (a *authority) initPolicies(ctx context.Context) error {
	if err := ctx.Err(); err != nil {
		return err
	}
	if !a.disablePubkeyd {
		if err := a.pubkeyd.Update(ctx); err != nil {
			return err
		}
	}
	if a.disablePolicyd {
		return nil
	}
	return a.policyd.Update(ctx)
}

// Start starts authority daemon.''')],
"start-switch-helper": [(A, '''			case err := <-cech:
				if err != nil {
					ech <- errors.Wrap(err, "update pubkey error")
				}
			case err := <-pech:
				if err != nil {
					ech <- errors.Wrap(err, "update policy error")
				}
			case err := <-jech:
				if err != nil {
					ech <- errors.Wrap(err, "update jwk error")
				}
			}
''', '''			case err := <-cech:
				forward(ech, err, "update pubkey error")
			case err := <-pech:
				forward(ech, err, "update policy error")
			case err := <-jech:
				forward(ech, err, "update jwk error")
			}
'''), (A, '''// VerifyRoleToken verifies the role token for specific''', '''func forward(ech chan<- error, err error, msg string) {
	if err == nil {
		return
	}
	ech <- errors.Wrap(err, msg)
}

// VerifyRoleToken verifies the role token for specific''')],
"verify-access-by-authorize": [(A, '''	_, err := a.authorize(ctx, accessToken, tok, act, res, "", cert)
	return err
''', '''	if _, err := a.AuthorizeAccessToken(ctx, tok, act, res, cert); err != nil {
		return err
	}
	return nil
''')],
"new-parts": [(A, '''	if prov.enableRoleToken {
		if prov.roleProcessor, err = role.New(
			role.WithPubkeyProvider(pkPro),
		); err != nil {
			return nil, err
		}
	}
''', '''	if prov.enableRoleToken {
		rp, err := role.New(role.WithPubkeyProvider(pkPro))
		if err != nil {
			return nil, err
		}
		prov.roleProcessor = rp
	}
''')],
# policy
"check-role-method": [(P, '''			go func(role string, ch chan<- roleEffect) {
				defer wg.Done()
				select {
				case <-cctx.Done():
					ch <- roleEffect{Role: role, Effect: cctx.Err()}
					return
				default:
					asss, ok := rp.Get(dr)
					if !ok {
						return
					}

					for _, ass := range asss.([]*Assertion) {
						glg.Debugf("Checking policy domain: %s, role: %v, action: %s, resource: %s, assertion: %v", domain, roles, action, resource, ass)
						select {
						case <-cctx.Done():
							ch <- roleEffect{Role: role, Effect: cctx.Err()}
							return
						default:
							// deny policies come first in rolePolicies, so it will return first before allow policies is checked
							if strings.EqualFold(ass.ResourceDomain, domain) &&
								ass.ActionRegexp.MatchString(strings.ToLower(action)) &&
								ass.ResourceRegexp.MatchString(strings.ToLower(resource)) {
								ch <- roleEffect{Role: role, Effect: ass.Effect}
								return
							}
						}
					}
				}
			}(role, ech)
''', '''			role := role
			go func() {
				defer wg.Done()
				if err := cctx.Err(); err != nil {
					ech <- roleEffect{Role: role, Effect: err}
					return
				}
				v, ok := rp.Get(dr)
				if !ok {
					return
				}
				lact, lres := strings.ToLower(action), strings.ToLower(resource)
				for _, ass := range v.([]*Assertion) {
					if err := cctx.Err(); err != nil {
						ech <- roleEffect{Role: role, Effect: err}
						return
					}
					if !strings.EqualFold(ass.ResourceDomain, domain) || !ass.ActionRegexp.MatchString(lact) || !ass.ResourceRegexp.MatchString(lres) {
						continue
					}
					ech <- roleEffect{Role: role, Effect: ass.Effect}
					return
				}
			}()
''')],
"check-cur-helper": [(P, '''		curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
		rp := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))

		for _, role''', '''		rp := p.currentRolePolicies()
		for _, role''')],
"check-cap": [(P, '''	allowedRoles := make([]string, 0, len(roles))
''', '''	var allowedRoles []string
''')],
"nomatch-first": [(P, '''	if len(allowedRoles) > 0 {
		glg.Debugf("check policy domain: %s, role: %v, action: %s, resource: %s, result: %v", domain, roles, action, resource, nil)
		return allowedRoles, nil
	}
	err := errors.Wrap(ErrNoMatch, "no match")
	glg.Debugf("check policy domain: %s, role: %v, action: %s, resource: %s, result: %v", domain, roles, action, resource, err)
	return nil, err
''', '''	if len(allowedRoles) == 0 {
		err := errors.Wrap(ErrNoMatch, "no match")
		glg.Debugf("check policy domain: %s, role: %v, action: %s, resource: %s, result: %v", domain, roles, action, resource, err)
		return nil, err
	}
	return allowedRoles, nil
''')],
"simplify-key-struct": [(P, '''					km := [...]string{ass.Role, ass.Action, ass.Resource}
''', '''					km := struct{ role, action, resource string }{ass.Role, ass.Action, ass.Resource}
''')],
"simplify-deny-helper": [(P, '''					if strings.EqualFold("deny", ass.Effect) {
						assm.Store(km, ass)
					} else {
						assm.LoadOrStore(km, ass)
					}
''', '''					if !strings.EqualFold("deny", ass.Effect) {
						assm.LoadOrStore(km, ass)
						continue
					}
					assm.Store(km, ass)
''')],
"cache-order": [(P, '''			asss = p.([]*Assertion)
			if a.Effect == nil {
				asss = append(asss, a) // append allowed policies to the end of the slice
			} else {
				asss = append([]*Assertion{a}, asss...) // append denied policies to the head
			}
''', '''			old := p.([]*Assertion)
			asss = make([]*Assertion, 0, len(old)+1)
			if a.Effect != nil {
				asss = append(asss, a)
			}
			asss = append(asss, old...)
			if a.Effect == nil {
				asss = append(asss, a)
			}
''')],
"update-range-direct": [(P, '''		f := fetcher // for closure
		select {
		case <-ctx.Done():
			glg.Info("Update policy interrupted")
			return ctx.Err()
		default:
			eg.Go(func() error {
				select {
				case <-ctx.Done():
					glg.Info("Update policy interrupted")
					return ctx.Err()
				default:
					return fetchAndCachePolicy(ctx, rp, f)
				}
			})
		}
''', '''		f := fetcher // for closure
		if err := ctx.Err(); err != nil {
			return err
		}
		eg.Go(func() error {
			if err := ctx.Err(); err != nil {
				return err
			}
			return fetchAndCachePolicy(ctx, rp, f)
		})
''')],
"update-swap-named": [(P, '''	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
	oldRpPtr := (*gache.Gache)(atomic.SwapPointer(curRpPtrPtr, unsafe.Pointer(&rp)))
	glg.Debugf("tmp cache becomes effective")
''', '''	next := unsafe.Pointer(&rp)
	oldRpPtr := (*gache.Gache)(atomic.SwapPointer((*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies)), next))
''')],
"fetch-cache-name": [(P, '''	sp, err := f.FetchWithRetry(ctx)
	if err != nil {
		errMsg := "fetch policy fail"
		glg.Errorf("%s, error: %v", errMsg, err)
		if sp == nil {
			return errors.Wrap(err, errMsg)
		}
	}
''', '''	sp, err := f.FetchWithRetry(ctx)
	switch {
	case err == nil:
	case sp == nil:
		glg.Errorf("fetch policy fail, error: %v", err)
		return errors.Wrap(err, "fetch policy fail")
	default:
		glg.Errorf("fetch policy fail, use the cached one, error: %v", err)
	}
''')],
"retry-while": [(F, '''	var lastErr error
	for i := -1; i < f.retryAttempts; i++ {
		sp, err := f.Fetch(ctx)
		if err == nil {
			return sp, nil
		}

		lastErr = err
		time.Sleep(f.retryDelay)
	}
''', '''	var lastErr error
	for left := f.retryAttempts + 1; left > 0; left-- {
		sp, err := f.Fetch(ctx)
		if err != nil {
			lastErr = err
			time.Sleep(f.retryDelay)
			continue
		}
		return sp, nil
	}
''')],
"fetch-etag-method": [(F, '''	if tp != nil && tp.eTag != "" && tp.eTagExpiry.After(fastime.Now()) {
		glg''', '''	if tp.usable() {
		glg'''), (F, '''func (t *taggedPolicy) String() string {''', '''func (t *taggedPolicy) usable() bool {
	if t == nil || t.eTag == "" {
		return false
	}
	return fastime.Now().Before(t.eTagExpiry)
}

func (t *taggedPolicy) String() string {''')],
"fetch-load-helper": [(F, '''	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
	if tp != nil && tp''', '''	tp := f.cached()
	if tp != nil && tp'''), (F, '''	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
	if tp == nil {
		return nil, errors.Wrap(errors''', '''	tp := f.cached()
	if tp == nil {
		return nil, errors.Wrap(errors'''), (F, '''func (t *taggedPolicy) String() string {''', '''func (f *fetcher) cached() *taggedPolicy {
	return (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
}

func (t *taggedPolicy) String() string {''')],
"fetch-status-if": [(F, '''	if res.StatusCode == http.StatusNotModified {
		if tp == nil {
			errMsg := "fetch policy HTTP response 304 without policy cache"
			glg.Errorf("%s, domain: %s", errMsg, f.domain)
			return nil, errors.Wrap(ErrFetchPolicy, errMsg)
		}
		glg.Debugf("policy = 304 not modified, use cache for domain: %s, ETag: %v", f.domain, tp.eTag)
		return tp.sp, nil
	}

	if res.StatusCode != http.StatusOK {
		errMsg := "fetch policy HTTP response != 200 OK"
		glg.Errorf("%s, domain: %s, status: %d", errMsg, f.domain, res.StatusCode)
		return nil, errors.Wrap(ErrFetchPolicy, errMsg)
	}
''', '''	if notModified := res.StatusCode == http.StatusNotModified; notModified && tp != nil {
		return tp.sp, nil
	} else if notModified {
		return nil, errors.Wrap(ErrFetchPolicy, "fetch policy HTTP response 304 without policy cache")
	} else if res.StatusCode != http.StatusOK {
		return nil, errors.Wrap(ErrFetchPolicy, "fetch policy HTTP response != 200 OK")
	}
''')],
"sp-verify-generic": [(SP, '''	ver := pkp(pubkey.EnvZTS, s.KeyId)
	if ver == nil {
		return errors.New("zts key not found")
	}
	spd, err := json.Marshal(s.SignedPolicyData)
	if err != nil {
		return errors.New("error marshal signed policy data")
	}
	if err := ver.Verify((string)(spd), s.Signature); err != nil {
		//if err := ver.Verify(*(*string)(unsafe.Pointer(s.SignedPolicyData)), s.Signature); err != nil {
		return errors.Wrap(err, "error verify signature")
	}

	// verify policy data
	ver = pkp(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId)
	if ver == nil {
		return errors.New("zms key not found")
	}
	pd, err := json.Marshal(s.SignedPolicyData.PolicyData)
	if err != nil {
		return errors.New("error marshal policy data")
	}
	if err := ver.Verify((string)(pd), s.SignedPolicyData.ZmsSignature); err != nil {
		return errors.Wrap(err, "error verify zms signature")
	}
	return nil
''', '''	check := func(env pubkey.AthenzEnv, keyID string, v interface{}, sig string) error {
		ver := pkp(env, keyID)
		if ver == nil {
			return errors.Errorf("%s key not found", env)
		}
		b, err := json.Marshal(v)
		if err != nil {
			return errors.Errorf("error marshal %s data", env)
		}
		return errors.Wrapf(ver.Verify(string(b), sig), "error verify %s signature", env)
	}
	if err := check(pubkey.EnvZTS, s.KeyId, s.SignedPolicyData, s.Signature); err != nil {
		return err
	}
	return check(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId, s.SignedPolicyData.PolicyData, s.SignedPolicyData.ZmsSignature)
''')],
"sp-expiry-before": [(SP, '''	if s.SignedPolicyData.Expires.Time.Sub(fastime.Now()) <= 0 {''', '''	if !fastime.Now().Before(s.SignedPolicyData.Expires.Time) {''')],
"new-assertion-effect": [(PA, '''		Effect: func() error {
			if strings.EqualFold("deny", effect) {
				return errors.Wrap(ErrDenyByPolicy, "policy deny")
			}
			return nil
		}(),
''', '''		Effect:               effectOf(effect),
'''), (PA, '''func isRegexMetaCharacter''', '''func effectOf(effect string) error {
	switch strings.ToLower(effect) {
	case "deny":
		return errors.Wrap(ErrDenyByPolicy, "policy deny")
	}
	return nil
}

func isRegexMetaCharacter''')],
"compile-helper": [(PA, '''	ar, err := regexp.Compile(patternFromGlob(strings.ToLower(action)))
	if err != nil {
		return nil, errors.Wrap(err, "assertion format not correct")
	}

	rr, err := regexp.Compile(patternFromGlob(strings.ToLower(res)))
	if err != nil {
		return nil, errors.Wrap(err, "assertion format not correct")
	}
''', '''	var rs [2]*regexp.Regexp
	for i, g := range [2]string{action, res} {
		r, err := regexp.Compile(patternFromGlob(strings.ToLower(g)))
		if err != nil {
			return nil, errors.Wrap(err, "assertion format not correct")
		}
		rs[i] = r
	}
	ar, rr := rs[0], rs[1]
''')],
# pubkey, jwk
"upd-two-calls": [(K, '''	eg.Go(func() error {
		glg.Info("Updating ZTS athenz pubkey")
		if err := updConf(EnvZTS, p.confCache.ZTSPubKeys); err != nil {
			return errors.Wrap(err, "Error updating ZTS athenz pubkey")
		}
		glg.Info("Update ZTS athenz pubkey success")
		return nil
	})

	eg.Go(func() error {
		glg.Info("Updating ZMS athenz pubkey")
		if err := updConf(EnvZMS, p.confCache.ZMSPubKeys); err != nil {
			return errors.Wrap(err, "Error updating ZMS athenz pubkey")
		}
		glg.Info("Update ZMS athenz pubkey success")
		return nil
	})
''', '''	update := func(env AthenzEnv, cache *sync.Map) {
		eg.Go(func() error {
			return errors.Wrapf(updConf(env, cache), "Error updating %s athenz pubkey", env)
		})
	}
	update(EnvZTS, p.confCache.ZTSPubKeys)
	update(EnvZMS, p.confCache.ZMSPubKeys)
''')],
"upd-serial": [(K, '''	eg.Go(func() error {
		glg.Info("Updating ZTS athenz pubkey")
		if err := updConf(EnvZTS, p.confCache.ZTSPubKeys); err != nil {
			return errors.Wrap(err, "Error updating ZTS athenz pubkey")
		}
		glg.Info("Update ZTS athenz pubkey success")
		return nil
	})

	eg.Go(func() error {
		glg.Info("Updating ZMS athenz pubkey")
		if err := updConf(EnvZMS, p.confCache.ZMSPubKeys); err != nil {
			return errors.Wrap(err, "Error updating ZMS athenz pubkey")
		}
		glg.Info("Update ZMS athenz pubkey success")
		return nil
	})
''', '''	eg.Go(func() error {
		return errors.Wrap(updConf(EnvZTS, p.confCache.ZTSPubKeys), "Error updating ZTS athenz pubkey")
	})
	eg.Go(func() error {
		return errors.Wrap(updConf(EnvZMS, p.confCache.ZMSPubKeys), "Error updating ZMS athenz pubkey")
	})
''')],
"getkey-map": [(K, '''	if env == EnvZTS {
		ver, ok := p.confCache.ZTSPubKeys.Load(keyID)
		if !ok {
			glg.Warnf("ZTS PubKey Load Failed keyID[%s]  getZTSPubKey %v", keyID, ver)
			return nil
		}
		return ver.(authcore.Verifier)
	}

	ver, ok := p.confCache.ZMSPubKeys.Load(keyID)
	if !ok {
		glg.Warnf("ZMS PubKey Load Failed keyID[%s]  getZMSPubKey %v", keyID, ver)
		return nil
	}
	return ver.(authcore.Verifier)
''', '''	keys := p.confCache.ZMSPubKeys
	if env == EnvZTS {
		keys = p.confCache.ZTSPubKeys
	}
	if ver, ok := keys.Load(keyID); ok {
		return ver.(authcore.Verifier)
	}
	glg.Warnf("%s PubKey Load Failed keyID[%s]", env, keyID)
	return nil
''')],
"jwk-key-inverted": [(J, '''	key, found := keys.(jwk.Set).LookupKeyID(keyID)
	if found {
		var raw interface{}
		if err := key.Raw(&raw); err != nil {
			glg.Warnf("jwkd.getKey: %s", err.Error())
		} else {
			return raw
		}
	}

	// Either key for the kid specified in the token was not found or invalid key
	return nil
''', '''	key, found := keys.(jwk.Set).LookupKeyID(keyID)
	if !found {
		return nil
	}
	var raw interface{}
	if err := key.Raw(&raw); err != nil {
		glg.Warnf("jwkd.getKey: %s", err.Error())
		return nil
	}
	return raw
''')],
"jwk-update-method": [(J, '''	for _, target := range targets {
		glg.Debugf("Fetching JWK Set from %s", target)
		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(j.client))
		if err != nil {
			glg.Errorf("Fetch JWK Set error: %v", err)
			failedTargets = append(failedTargets, target)
			continue
		}
		j.keys.Store(target, keys)
		glg.Debugf("Fetch JWK Set from %s success", target)
	}
''', '''	for i := range targets {
		if !j.refresh(ctx, targets[i]) {
			failedTargets = append(failedTargets, targets[i])
		}
	}
'''), (J, '''func (j *jwkd) GetProvider() Provider {''', '''func (j *jwkd) refresh(ctx context.Context, target string) bool {
	keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(j.client))
	if err == nil {
		j.keys.Store(target, keys)
	} else {
		glg.Errorf("Fetch JWK Set error: %v", err)
	}
	return err == nil
}

func (j *jwkd) GetProvider() Provider {''')],
# tokens
"rt-split-method": [(RP, '''	rt, err := r.parseToken(tok)
	if err != nil {
		return nil, errors.Wrap(err, "error parse role token")
	}

	if err = r.validate(rt); err != nil {
		return nil, errors.Wrap(err, "error validate role token")
	}
	return rt, nil
''', '''	rt, err := r.parseToken(tok)
	if err != nil {
		err = errors.Wrap(err, "error parse role token")
	} else if err = r.validate(rt); err != nil {
		err = errors.Wrap(err, "error validate role token")
	}
	if err != nil {
		return nil, err
	}
	return rt, nil
''')],
"rt-lastness": [(RP, '''	return ver.Verify(rt.UnsignedToken, rt.Signature)
''', '''	if err := ver.Verify(rt.UnsignedToken, rt.Signature); err != nil {
		return err
	}
	return nil
''')],
"claim-valid-table": [(CL, '''	if !c.VerifyExpiresAt(now, true) {
		delta := time.Unix(now, 0).Sub(time.Unix(c.ExpiresAt, 0))
		vErr.Inner = fmt.Errorf("token is expired by %v", delta)
		vErr.Errors |= jwt.ValidationErrorExpired
	}
''', '''	if exp := c.VerifyExpiresAt(now, true); !exp {
		vErr.Inner = fmt.Errorf("token is expired by %v", time.Duration(now-c.ExpiresAt)*time.Second)
		vErr.Errors |= jwt.ValidationErrorExpired
	}
''')],
"cid-map-lookup": [(AP, '''	clientIDs := a.authorizedClientIDs[cn]

	for _, v := range clientIDs {
		if v == clientID {
			return nil
		}
	}
''', '''	clientIDs, ok := a.authorizedClientIDs[cn]
	if !ok {
		return errors.Errorf("error %v is not authorized %v", clientID, cn)
	}
	for i := range clientIDs {
		if clientID == clientIDs[i] {
			return nil
		}
	}
''')],
"cnf-vars": [(AP, '''	if certThumbprint, ok := claims.Confirm[confirmMethodCertThumbprint].(string); ok {
		// cnf check
		sum := sha256.Sum256(cert.Raw)
		if base64.RawURLEncoding.EncodeToString(sum[:]) == certThumbprint {
			return nil
		}

		// If cnf check fails, check to allow if the certificate has been refresh
		if err := a.validateCertPrincipal(cert, claims); err == nil {
			return nil
		}
	}
''', '''	certThumbprint, hasThumbprint := claims.Confirm[confirmMethodCertThumbprint].(string)
	if hasThumbprint && (thumbprint(cert) == certThumbprint || a.validateCertPrincipal(cert, claims) == nil) {
		return nil
	}
'''), (AP, '''func (a *atp) validateCertPrincipal''', '''func thumbprint(cert *x509.Certificate) string {
	sum := sha256.Sum256(cert.Raw)
	return base64.RawURLEncoding.EncodeToString(sum[:])
}

func (a *atp) validateCertPrincipal''')],
# client, translator
"rt-loop-forever": [(C, '''	for cnt := 0; cnt == 0 || cnt < p.maxRetryCount; cnt++ {
		if resp''', '''	for cnt := 0; ; cnt++ {
		if cnt > 0 && cnt >= p.maxRetryCount {
			break
		}
		if resp''')],
"rt-merge-err": [(C, '''			if !isTemporary(err) {
				return nil, err
			}

			if !canRetry(dur, timeLimit) {
				return nil, err
			}
''', '''			if !(isTemporary(err) && canRetry(dur, timeLimit)) {
				return nil, err
			}
''')],
"rt-dur-later": [(C, '''		dur := p.calNextWaitDur(cnt)

		if err != nil {
			if !isTemporary(err) {
				return nil, err
			}
''', '''		if err != nil {
			if !isTemporary(err) {
				return nil, err
			}
			dur := p.calNextWaitDur(cnt)
''')],
"tr-match-func": [(T, '''			placeholderMap := make(map[string]string)
			for i, reqPath := range requestedPaths {
				if rule.splitPaths[i].isPlaceholder {
					placeholderMap[rule.splitPaths[i].name] = reqPath
				} else if reqPath != rule.splitPaths[i].name {
					continue OUTER
				}
			}

			for reqQuery, reqVal := range requestedQuery {
				// query multiple values is not allowed
				if len(reqVal) != 1 {
					continue OUTER
				}
				if v, ok := rule.queryValueMap[reqQuery]; ok {
					if v.isPlaceholder {
						placeholderMap[v.name] = reqVal[0]
					} else if reqVal[0] != v.name {
						continue OUTER
					}
				} else {
					continue OUTER
				}
			}

			return rule.Action, replacePlaceholders(rule.Resource, placeholderMap), nil
''', '''			placeholderMap := make(map[string]string)
			for i, reqPath := range requestedPaths {
				if !rule.splitPaths[i].accept(reqPath, placeholderMap) {
					continue OUTER
				}
			}
			for reqQuery, reqVal := range requestedQuery {
				v, ok := rule.queryValueMap[reqQuery]
				if !ok || len(reqVal) != 1 || !v.accept(reqVal[0], placeholderMap) {
					continue OUTER
				}
			}
			return rule.Action, replacePlaceholders(rule.Resource, placeholderMap), nil
'''), (T, '''// MappingRules keeps the translation rules''', '''func (p param) accept(s string, m map[string]string) bool {
	if p.isPlaceholder {
		m[p.name] = s
		return true
	}
	return p.name == s
}

// MappingRules keeps the translation rules''')],
"tr-val-one-loop": [(T, '''			for j, path := range splitPaths {
				if ok, err := rules[i].isPlaceholder(path); ok {
					rules[i].splitPaths[j] = param{name: path, isPlaceholder: true}
				} else {
					if err != nil {
						return err
					}
					rules[i].splitPaths[j] = param{name: path, isPlaceholder: false}
				}
			}
''', '''			for j, path := range splitPaths {
				ok, err := rules[i].isPlaceholder(path)
				if err != nil {
					return err
				}
				rules[i].splitPaths[j] = param{name: path, isPlaceholder: ok}
			}
''')],
}
