A = "authorizerd.go"; P = "policy/daemon.go"; F = "policy/fetcher.go"; PA = "policy/assertion.go"; SP = "policy/signed_policy.go"; O = "option.go"; M = "mask.go"
K = "pubkey/daemon.go"; J = "jwk/daemon.go"; C = "client/exp_rt.go"; T = "translator.go"; AP = "access/processor.go"; RP = "role/processor.go"; RT = "role/token.go"; CL = "access/claim.go"
KO = "pubkey/option.go"; JO = "jwk/option.go"; PO = "policy/option.go"; AO = "access/option.go"
R = {
# authorizerd.go
"cert-names-sprintf": [(A, '''		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(cert.Issuer.CommonName))
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(cert.Subject.CommonName))
''', '''		fmt.Fprintf(&key, "%c%s%c%s", cacheKeyDelimiter, cacheKeyEscaper.Replace(cert.Issuer.CommonName), cacheKeyDelimiter, cacheKeyEscaper.Replace(cert.Subject.CommonName))
''')],
"key-part-closure": [(A, '''	var key strings.Builder
	keyTok := cacheKeyEscaper.Replace(tok)
	key.WriteString(keyTok)
''', '''	var key strings.Builder
	keyTok := cacheKeyEscaper.Replace(tok)
	key.WriteString(keyTok)
	part := func(s string) {
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(s))
	}
'''), (A, '''		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(cert.Issuer.CommonName))
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(cert.Subject.CommonName))
''', '''		part(cert.Issuer.CommonName)
		part(cert.Subject.CommonName)
'''), (A, '''		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(act))
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(res))
		if query != "" && a.translator != nil {
			key.WriteRune(cacheKeyDelimiter)
			key.WriteString(cacheKeyEscaper.Replace(query))
		}
''', '''		part(act)
		part(res)
		if a.translator != nil && query != "" {
			part(query)
		}
''')],
"cached-helper": [(A, '''	cached, ok := a.cache.Get(key.String())
	if ok {
		// the result of one token type is never used for the other token type
		if _, isAccessToken := cached.(OAuthAccessToken); isAccessToken == (m == accessToken) {
			glg.DebugFunc(func() string {
				return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
			})
			return cached.(Principal), nil
		}
	}
''', '''	if p := a.lookup(m, key.String()); p != nil {
		glg.DebugFunc(func() string {
			return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
		})
		return p, nil
	}
'''), (A, '''// Verify returns error of verification. Returns''', '''func (a *authority) lookup(m mode, key string) Principal {
	cached, ok := a.cache.Get(key)
	if !ok {
		return nil
	}
	if _, isAccessToken := cached.(OAuthAccessToken); isAccessToken != (m == accessToken) {
		return nil
	}
	return cached.(Principal)
}

// Verify returns error of verification. Returns''')],
"role-case-method": [(A, '''		rt, err := a.roleProcessor.ParseAndValidateRoleToken(tok)
		if err != nil {
			glg.Infof("error parse and validate role token, err: %v", err)
			return nil, errors.Wrap(err, "error authorize role token")
		}
		domain = rt.Domain
		roles = rt.Roles
		p = &principal{
			name:       rt.Principal,
			roles:      rt.Roles,
			domain:     rt.Domain,
			issueTime:  rt.TimeStamp.Unix(),
			expiryTime: rt.ExpiryTime.Unix(),
		}
''', '''		rt, err := a.roleProcessor.ParseAndValidateRoleToken(tok)
		if err != nil {
			glg.Infof("error parse and validate role token, err: %v", err)
			return nil, errors.Wrap(err, "error authorize role token")
		}
		rp := rolePrincipal(rt)
		domain, roles, p = rp.domain, rp.roles, rp
'''), (A, '''// Verify returns error of verification. Returns''', '''func rolePrincipal(rt *role.Token) *principal {
	p := new(principal)
	p.name = rt.Principal
	p.domain = rt.Domain
	p.roles = rt.Roles
	p.issueTime, p.expiryTime = rt.TimeStamp.Unix(), rt.ExpiryTime.Unix()
	return p
}

// Verify returns error of verification. Returns''')],
"mode-if-else": [(A, '''	case accessToken:
		if a.accessProcessor == nil {''', '''	default:
		if a.accessProcessor == nil {''')],
"policy-check-method": [(A, '''		res = a.resourcePrefix + res
		authorizedRoles, err := a.policyd.CheckPolicyRoles(ctx, domain, roles, act, res)
		if err != nil {
			glg.Infof("check policy error, err: %v, principal: %s, action: %s, resource: %s", err, p.Name(), act, res)
			return nil, errors.Wrap(err, "token unauthorized")
		}
''', '''		authorizedRoles, err := a.authorizedRoles(ctx, p, act, a.resourcePrefix+res)
		if err != nil {
			return nil, err
		}
'''), (A, '''// Verify returns error of verification. Returns''', '''func (a *authority) authorizedRoles(ctx context.Context, p Principal, act, res string) ([]string, error) {
	roles, err := a.policyd.CheckPolicyRoles(ctx, p.Domain(), p.Roles(), act, res)
	if err != nil {
		glg.Infof("check policy error, err: %v, principal: %s, action: %s, resource: %s", err, p.Name(), act, res)
		return nil, errors.Wrap(err, "token unauthorized")
	}
	return roles, nil
}

// Verify returns error of verification. Returns'''), (A, '''		domain string
		roles  []string
		p      Principal
''', '''		domain string
		p      Principal
'''), (A, "		roles = rt.Roles\n", ""), (A, "		roles = ac.Scope\n", "")],
"rolecert-slice-order": [(A, '''	drcheck := make(map[[2]string]struct{})
	domainRoles := make(map[string][]string)
	addDomainRoles := func(dr []string) {
		if len(dr) != 2 {
			return
		}
		domain, roleName := dr[0], dr[1]
		// duplicated role check
		domainRole := [2]string{domain, roleName}
		if _, ok := drcheck[domainRole]; !ok {
			domainRoles[domain] = append(domainRoles[domain], roleName)
			drcheck[domainRole] = struct{}{}
		}
	}
''', '''	type domainRole struct{ domain, role string }
	seen := make(map[domainRole]bool)
	domainRoles := make(map[string][]string)
	addDomainRoles := func(dr []string) {
		if len(dr) < 2 {
			return
		}
		k := domainRole{dr[0], dr[1]}
		if seen[k] {
			return
		}
		seen[k] = true
		domainRoles[k.domain] = append(domainRoles[k.domain], k.role)
	}
''')],
"rolecert-uri-var": [(A, '''			if strings.HasPrefix(uri.String(), a.roleCertURIPrefix) {
				dr := strings.SplitN(strings.TrimPrefix(uri.String(), a.roleCertURIPrefix), "/", 2) // domain/role
				addDomainRoles(dr)
			}
''', '''			u := uri.String()
			if !strings.HasPrefix(u, a.roleCertURIPrefix) {
				continue
			}
			addDomainRoles(strings.SplitN(u[len(a.roleCertURIPrefix):], "/", 2)) // domain/role
''')],
"rolecert-names-func": [(A, '''	for _, cert := range peerCerts {
		subj := cert.Subject.CommonName
		dr := strings.SplitN(subj, roleInCNDelimiter, 2)
		// dr will be just ignored when subj doesn't represents a role (not contains ":role.")
		addDomainRoles(dr)

		for _, uri := range cert.URIs {
			if strings.HasPrefix(uri.String(), a.roleCertURIPrefix) {
				dr := strings.SplitN(strings.TrimPrefix(uri.String(), a.roleCertURIPrefix), "/", 2) // domain/role
				addDomainRoles(dr)
			}
		}
	}
''', '''	for i := range peerCerts {
		a.certRoles(peerCerts[i], addDomainRoles)
	}
'''), (A, '''// AuthorizeRoleCert verifies the role certificate for specific''', '''func (a *authority) certRoles(cert *x509.Certificate, add func([]string)) {
	add(strings.SplitN(cert.Subject.CommonName, roleInCNDelimiter, 2))
	for _, uri := range cert.URIs {
		if s := uri.String(); strings.HasPrefix(s, a.roleCertURIPrefix) {
			add(strings.SplitN(strings.TrimPrefix(s, a.roleCertURIPrefix), "/", 2))
		}
	}
}

// AuthorizeRoleCert verifies the role certificate for specific''')],
"getpolicy-var": [(A, '''	if !a.disablePolicyd {
		return a.policyd.GetPolicyCache(ctx)
	} else {
		return make(map[string]interface{})
	}
''', '''	if a.disablePolicyd {
		return map[string]interface{}{}
	}
	return a.policyd.GetPolicyCache(ctx)
''')],
"init-table": [(A, '''	if !a.disableJwkd {
		eg.Go(func() error {
			select {
			case <-egCtx.Done():
				return egCtx.Err()
			default:
				return a.jwkd.Update(egCtx)
			}
		})
	}

	return eg.Wait()
''', '''	if a.disableJwkd {
		return eg.Wait()
	}
	eg.Go(func() error {
		select {
		case <-egCtx.Done():
			return egCtx.Err()
		default:
		}
		return a.jwkd.Update(egCtx)
	})
	return eg.Wait()
''')],
# policy
"collect-switch": [(P, '''		if re.Effect != nil { // denied assertion is prioritize, so return directly
			glg.Debugf("check policy domain: %s, role: %v, action: %s, resource: %s, result: %v", domain, roles, action, resource, re.Effect)
			return nil, re.Effect
		}
		allowedRoles = append(allowedRoles, re.Role)
''', '''		switch err := re.Effect; err {
		case nil:
			allowedRoles = append(allowedRoles, re.Role)
		default:
			glg.Debugf("check policy domain: %s, role: %v, action: %s, resource: %s, result: %v", domain, roles, action, resource, err)
			return nil, err
		}
''')],
"check-worker-named": [(P, '''	go func() {
		defer close(ech)

		wg := new(sync.WaitGroup)
		wg.Add(len(roles))
''', '''	work := func() {
		defer close(ech)

		wg := new(sync.WaitGroup)
		wg.Add(len(roles))
'''), (P, '''		wg.Wait()
	}()

	allowedRoles''', '''		wg.Wait()
	}
	go work()

	allowedRoles''')],
"check-key-plus": [(P, '''			dr := fmt.Sprintf("%s:role.%s", domain, role)
''', '''			dr := domain + ":role." + role
''')],
"ass-match-method": [(P, '''							if strings.EqualFold(ass.ResourceDomain, domain) &&
								ass.ActionRegexp.MatchString(strings.ToLower(action)) &&
								ass.ResourceRegexp.MatchString(strings.ToLower(resource)) {
								ch <-''', '''							if ass.matches(domain, action, resource) {
								ch <-'''), (PA, '''func isRegexMetaCharacter''', '''// matches tells whether the assertion is about the action on the resource.
func (a *Assertion) matches(domain, action, resource string) bool {
	if !strings.EqualFold(a.ResourceDomain, domain) {
		return false
	}
	return a.ActionRegexp.MatchString(strings.ToLower(action)) && a.ResourceRegexp.MatchString(strings.ToLower(resource))
}

func isRegexMetaCharacter''')],
"effect-isdenied-method": [(P, '''			if a.Effect == nil {
				asss = append(asss, a) // append allowed policies to the end of the slice
			} else {
				asss = append([]*Assertion{a}, asss...) // append denied policies to the head
			}
''', '''			if denied := a.Effect != nil; denied {
				asss = append([]*Assertion{a}, asss...) // append denied policies to the head
			} else {
				asss = append(asss, a) // append allowed policies to the end of the slice
			}
''')],
"range-err-var": [(P, '''	if retErr != nil {
		return retErr
	}

	return nil
}
''', '''	return retErr
}
''')],
"hook-domain-helper": [(P, '''			f, ok := p.fetchers[strings.Split(key, ":role.")[0]]
			if !ok {
				glg.Warnf("no fetcher to update the expired policy, key: %s", key)
				return
			}
''', '''			f := p.fetcherOf(key)
			if f == nil {
				glg.Warnf("no fetcher to update the expired policy, key: %s", key)
				return
			}
'''), (P, '''// currentRolePolicies returns the''', '''func (p *policyd) fetcherOf(key string) Fetcher {
	if f, ok := p.fetchers[strings.SplitN(key, ":role.", 2)[0]]; ok {
		return f
	}
	return nil
}

// currentRolePolicies returns the''')],
"fetch-ctx-first": [(F, '''	res, err := f.client.Do(req.WithContext(ctx))
	if err != nil {
		errMsg := "fetch policy HTTP request fail"
''', '''	req = req.WithContext(ctx)
	res, err := f.client.Do(req)
	if err != nil {
		errMsg := "fetch policy HTTP request fail"
''')],
"fetch-fail-helper": [(F, '''	if res.StatusCode != http.StatusOK {
		errMsg := "fetch policy HTTP response != 200 OK"
		glg.Errorf("%s, domain: %s, status: %d", errMsg, f.domain, res.StatusCode)
		return nil, errors.Wrap(ErrFetchPolicy, errMsg)
	}
''', '''	if res.StatusCode != http.StatusOK {
		return nil, f.fail(ErrFetchPolicy, "fetch policy HTTP response != 200 OK")
	}
'''), (F, '''	if err = f.spVerifier(sp); err != nil {
		errMsg := "invalid policy"
		glg.Errorf("%s, domain: %s, error: %v", errMsg, f.domain, err)
		return nil, errors.Wrap(err, errMsg)
	}
''', '''	if err = f.spVerifier(sp); err != nil {
		return nil, f.fail(err, "invalid policy")
	}
'''), (F, '''func (t *taggedPolicy) String() string {''', '''func (f *fetcher) fail(err error, msg string) error {
	glg.Errorf("%s, domain: %s, error: %v", msg, f.domain, err)
	return errors.Wrap(err, msg)
}

func (t *taggedPolicy) String() string {''')],
"glob-writebyte": [(PA, '''	sb.WriteString("^")
	for _, c := range glob {
		if c == '*' {
			sb.WriteString(".*")
		} else if c == '?' {
			sb.WriteString(".")
		} else {
			if isRegexMetaCharacter(c) {
				sb.WriteString("\\\\")
			}
			sb.WriteRune(c)
		}
	}
	sb.WriteString("$")
''', '''	sb.WriteByte('^')
	for _, c := range glob {
		switch {
		case c == '*':
			sb.WriteString(".*")
		case c == '?':
			sb.WriteByte('.')
		case isRegexMetaCharacter(c):
			sb.WriteByte('\\\\')
			fallthrough
		default:
			sb.WriteRune(c)
		}
	}
	sb.WriteByte('$')
''')],
"meta-indexrune": [(PA, '''	switch target {
	case '^':
	case '$':
	case '.':
	case '|':
	case '[':
	case '+':
	case '\\\\':
	case '(':
	case ')':
	case '{':
	default:
		return false
	}
	return true
''', '''	return strings.IndexRune("^$.|[+\\\\(){", target) >= 0
''')],
# pubkey
"stage-func": [(K, '''		cm.Range(func(key interface{}, val interface{}) bool {
			cache.Store(key, val)
			return true
		})
		cache.Range(func(key interface{}, val interface{}) bool {
			_, ok := cm.Load(key)
			if !ok {
				cache.Delete(key)
			}
			return true
		})

		return nil
''', '''		replaceAll(cache, cm)
		return nil
'''), (K, '''// GetProvider returns the public key provider''', '''func replaceAll(dst, src *sync.Map) {
	src.Range(func(k, v interface{}) bool {
		dst.Store(k, v)
		return true
	})
	dst.Range(func(k, _ interface{}) bool {
		if _, keep := src.Load(k); !keep {
			dst.Delete(k)
		}
		return true
	})
}

// GetProvider returns the public key provider''')],
"upd-nil-first": [(K, '''		if !upded {
			glg.Infof("%v athenz pubkey not updated", env)
			return nil
		}

		defer''', '''		if upded == false {
			return nil
		}

		defer''')],
"pub-notmod-else": [(K, '''	if eTag != "" {
		glg.Debugf("Setting ETag %v", eTag)
		p.eTagCache.SetWithExpire(string(env), &confCache{eTag, sac}, p.eTagExpiry)
	} else {
		// the remembered ETag is the one of other keys
		p.eTagCache.Delete(string(env))
	}
''', '''	switch eTag {
	case "":
		p.eTagCache.Delete(string(env))
	default:
		cc := new(confCache)
		cc.eTag, cc.sac = eTag, sac
		p.eTagCache.SetWithExpire(string(env), cc, p.eTagExpiry)
	}
''')],
# jwk
"jwk-contains-lib": [(J, '''	for _, target := range targets {
		if target == key {
			return true
		}
	}
	return false
''', '''	found := false
	for _, target := range targets {
		found = found || target == key
	}
	return found
''')],
"jwk-url-pick": [(J, '''	var keys interface{}
	var ok bool
	if jwkSetURL == "" {
		keys, ok = j.keys.Load(j.athenzJwksURL)
	} else {
		keys, ok = j.keys.Load(jwkSetURL)
	}
''', '''	if jwkSetURL == "" {
		jwkSetURL = j.athenzJwksURL
	}
	keys, ok := j.keys.Load(jwkSetURL)
''')],
# tokens
"rt-token-setter-map": [(RT, '''	case "e":
		i, err := strconv.ParseInt(value, 10, 64)
		if err != nil {
			return errors.Wrap(err, "invalid expiry time")
		}
		r.ExpiryTime = time.Unix(i, 0)
''', '''	case "e":
		return unixTime(&r.ExpiryTime, value, "invalid expiry time")
'''), (RT, '''		i, err := strconv.ParseInt(value, 10, 64)
		if err != nil {
			return errors.Wrap(err, "invalid timestamp")
		}
		r.TimeStamp = time.Unix(i, 0)
''', '''		return unixTime(&r.TimeStamp, value, "invalid timestamp")
'''), (RT, '''// Expired returns if''', '''func unixTime(t *time.Time, value, msg string) error {
	sec, err := strconv.ParseInt(value, 10, 64)
	if err != nil {
		return errors.Wrap(err, msg)
	}
	*t = time.Unix(sec, 0)
	return nil
}

// Expired returns if''')],
"rt-parse-index": [(RP, '''	st := strings.SplitN(tok, ";s=", 2)
	if len(st) != 2 {
		return nil, errors.Wrap(ErrRoleTokenInvalid, "no signature found")
	}

	rt := &Token{
		UnsignedToken: st[0],
		Signature:     st[1],
	}

	for _, pair := range strings.Split(st[0], ";") {
''', '''	i := strings.Index(tok, ";s=")
	if i < 0 {
		return nil, errors.Wrap(ErrRoleTokenInvalid, "no signature found")
	}
	rt := new(Token)
	rt.UnsignedToken, rt.Signature = tok[:i], tok[i+len(";s="):]

	for _, pair := range strings.Split(rt.UnsignedToken, ";") {
''')],
"refresh-bounds": [(AP, '''	if certActualIssueTime < atIssueTime {
		return errors.Errorf("error certificate: issued before access token: cert = %v, tok = %v", certActualIssueTime, atIssueTime)
	}
	// Issue time check. Determine if certificate's issue time is within an allowed range
	if certActualIssueTime > atIssueTime+a.clientCertificateOffsetSeconds {
		return errors.Errorf(''', '''	latest := atIssueTime + a.clientCertificateOffsetSeconds
	switch {
	case certActualIssueTime < atIssueTime:
		return errors.Errorf("error certificate: issued before access token: cert = %v, tok = %v", certActualIssueTime, atIssueTime)
	case certActualIssueTime > latest:
		return errors.Errorf(''')],
"proxy-helper": [(AP, '''		valid := make(map[string]struct{}, len(proxyPrincipals))
		for _, value := range proxyPrincipals {
			if spiffe, ok := value.(string); ok {
				valid[spiffe] = struct{}{}
			}
		}
		for _, uri := range cert.URIs {
			if _, ok := valid[uri.String()]; ok {
				return nil
			}
		}
''', '''		valid := make(map[string]bool)
		for i := range proxyPrincipals {
			spiffe, ok := proxyPrincipals[i].(string)
			if !ok {
				continue
			}
			valid[spiffe] = true
		}
		for _, uri := range cert.URIs {
			if valid[uri.String()] {
				return nil
			}
		}
''')],
"at-checks-early": [(AP, '''	// certificate bound access token
	if a.enableMTLSCertificateBoundAccessToken {
		err := a.validateCertificateBoundAccessToken(cert, claims)
		if err != nil {
			return nil, err
		}
	}

	return claims, nil
''', '''	// certificate bound access token
	if !a.enableMTLSCertificateBoundAccessToken {
		return claims, nil
	}
	if err := a.validateCertificateBoundAccessToken(cert, claims); err != nil {
		return nil, err
	}
	return claims, nil
''')],
"hdr-value-helper": [(AP, '''	var v interface{}
	if v, ok = (*header)[key]; !ok {
		return "", errKeyNotFoundInHeader
	}

	var value string
	if value, ok = v.(string); !ok {
		return "", errHeaderValueNotString
	}

	return value, nil
''', '''	var v interface{}
	v, ok = (*header)[key]
	if !ok {
		return "", errKeyNotFoundInHeader
	}
	switch value := v.(type) {
	case string:
		return value, nil
	default:
		return "", errHeaderValueNotString
	}
''')],
# translator
"tr-rules-lookup": [(T, '''OUTER:
	for _, rule := range mr.Rules[domain] {''', '''	rules, ok := mr.Rules[domain]
	if !ok {
		return method, path, nil
	}
OUTER:
	for _, rule := range rules {''')],
"tr-inner-func": [(T, '''				if v, ok := rule.queryValueMap[reqQuery]; ok {
					if v.isPlaceholder {
						placeholderMap[v.name] = reqVal[0]
					} else if reqVal[0] != v.name {
						continue OUTER
					}
				} else {
					continue OUTER
				}
''', '''				v, ok := rule.queryValueMap[reqQuery]
				switch {
				case !ok:
					continue OUTER
				case v.isPlaceholder:
					placeholderMap[v.name] = reqVal[0]
				case reqVal[0] != v.name:
					continue OUTER
				}
''')],
"val-rule-helper": [(T, '''			if rule.Method == "" || rule.Action == "" || rule.Resource == "" {
				return fmt.Errorf("rule is empty, method:%s, action:%s, resource:%s",
					rule.Method, rule.Action, rule.Resource)
			}
			if rule.Path != "" && !strings.HasPrefix(rule.Path, "/") {
				return fmt.Errorf("path(%s) doesn't start with slash", rule.Path)
			}
''', '''			if err := rule.check(); err != nil {
				return err
			}
'''), (T, '''func (r *Rule) isPlaceholder(''', '''func (r Rule) check() error {
	for _, s := range []string{r.Method, r.Action, r.Resource} {
		if s == "" {
			return fmt.Errorf("rule is empty, method:%s, action:%s, resource:%s", r.Method, r.Action, r.Resource)
		}
	}
	if r.Path != "" && r.Path[0] != '/' {
		return fmt.Errorf("path(%s) doesn't start with slash", r.Path)
	}
	return nil
}

func (r *Rule) isPlaceholder(''')],
"ph-helper-dup": [(T, '''		if r.splitPaths != nil {
			for _, p := range r.splitPaths {
				if p.isPlaceholder && p.name == s {
					return false, fmt.Errorf("placeholder(%s) is duplicated", s)
				}
			}
		}
		if r.queryValueMap != nil {
			for _, p := range r.queryValueMap {
				if p.isPlaceholder && p.name == s {
					return false, fmt.Errorf("placeholder(%s) is duplicated", s)
				}
			}
		}
		return true, nil
	}
	return false, nil
''', '''		if r.has(s) {
			return false, fmt.Errorf("placeholder(%s) is duplicated", s)
		}
		return true, nil
	}
	return false, nil
'''), (T, '''func (r *Rule) isPlaceholder(''', '''func (r *Rule) has(placeholder string) bool {
	for _, p := range r.splitPaths {
		if p.isPlaceholder && p.name == placeholder {
			return true
		}
	}
	for _, p := range r.queryValueMap {
		if p.isPlaceholder && p.name == placeholder {
			return true
		}
	}
	return false
}

func (r *Rule) isPlaceholder(''')],
# client
"rt-status-switch-fn": [(C, '''	_, ok := retryableStatuses[r.StatusCode]
	return ok
''', '''	switch r.StatusCode {
	case http.StatusTooManyRequests, http.StatusInternalServerError, http.StatusServiceUnavailable, http.StatusGatewayTimeout:
		return true
	}
	return false
''')],
"rt-attempt-helper": [(C, '''		if resp != nil {
			// this response is going to be replaced
			io.Copy(ioutil.Discard, resp.Body)
			resp.Body.Close()
		}
''', '''		drain(resp)
'''), (C, '''// sleep return false if''', '''func drain(resp *http.Response) {
	if resp == nil {
		return
	}
	io.Copy(ioutil.Discard, resp.Body)
	resp.Body.Close()
}

// sleep return false if''')],
"rt-time-limit": [(C, '''	timeLimit := fastime.Now().Add(p.maxRetryTime).UnixNano()
''', '''	begin := fastime.Now()
	timeLimit := begin.Add(p.maxRetryTime).UnixNano()
'''), (C, '''		if responseRetriable(resp) {
			continue
		}

		// response success
		return resp, nil
''', '''		if !responseRetriable(resp) {
			return resp, nil
		}
''')],
# options
"opt-dur-generic": [(KO, '''		rd, err := time.ParseDuration(t)
		if err != nil {
			return errors.Wrap(err, "invalid refresh period")
		}
		if rd <= 0 {
			return errors.Errorf("invalid refresh period, %s is not positive", rd)
		}
		p.refreshPeriod = rd
		return nil
''', '''		return positive(&p.refreshPeriod, t, "invalid refresh period")
'''), (KO, '''// WithETagExpiry returns''', '''func positive(dst *time.Duration, s, msg string) error {
	d, err := time.ParseDuration(s)
	switch {
	case err != nil:
		return errors.Wrap(err, msg)
	case d <= 0:
		return errors.Errorf("%s, %s is not positive", msg, d)
	}
	*dst = d
	return nil
}

// WithETagExpiry returns''')],
"opt-nonempty-if": [(PO, '''		if d == "" {
			return nil
		}
		em, err := time.ParseDuration(d)
		if err != nil {
			return errors.Wrap(err, "invalid expiry margin")
		}
		pol.expiryMargin = em
		return nil
''', '''		if d != "" {
			em, err := time.ParseDuration(d)
			if err != nil {
				return errors.Wrap(err, "invalid expiry margin")
			}
			pol.expiryMargin = em
		}
		return nil
''')],
"opt-new-loop": [(J, '''	for _, opt := range append(defaultOptions, opts...) {
		err := opt(j)
		if err != nil {
			return nil, errors.Wrap(err, "error create jwkd")
		}
	}
''', '''	for _, set := range [][]Option{defaultOptions, opts} {
		for _, opt := range set {
			if err := opt(j); err != nil {
				return nil, errors.Wrap(err, "error create jwkd")
			}
		}
	}
''')],
"mask-cut": [(M, '''		i := strings.Index(tok, ";s=")
		if i > 0 {
			return tok[:i]
		}
		return "mask token error: invalid role token"
''', '''		unsigned, _, ok := strings.Cut(tok, ";s=")
		if !ok || unsigned == "" {
			return "mask token error: invalid role token"
		}
		return unsigned
''')],
}
