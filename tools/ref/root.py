A = "authorizerd.go"
R = {
"key-helper": [(A, '''	var key strings.Builder
	keyTok := cacheKeyEscaper.Replace(tok)
	key.WriteString(keyTok)

	if cert != nil {
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(cert.Issuer.CommonName))
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(cert.Subject.CommonName))
		if len(cert.Raw) != 0 {
			// the certificate checks depend on the whole certificate, not only on its names
			sum := sha256.Sum256(cert.Raw)
			key.WriteString(cacheKeyCertMark)
			key.WriteString(hex.EncodeToString(sum[:]))
		}
	}
''', '''	var key strings.Builder
	keyTok := cacheKeyEscaper.Replace(tok)
	key.WriteString(keyTok)
	writeCert(&key, cert)
'''), (A, '''// Verify returns error of verification.''', '''func writeCert(key *strings.Builder, cert *x509.Certificate) {
	if cert == nil {
		return
	}
	for _, cn := range []string{cert.Issuer.CommonName, cert.Subject.CommonName} {
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(cn))
	}
	if len(cert.Raw) == 0 {
		return
	}
	sum := sha256.Sum256(cert.Raw)
	key.WriteString(cacheKeyCertMark)
	key.WriteString(hex.EncodeToString(sum[:]))
}

// Verify returns error of verification.''')],
"key-concat": [(A, '''		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(act))
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(res))
''', '''		key.WriteString(string(cacheKeyDelimiter) + cacheKeyEscaper.Replace(act) + string(cacheKeyDelimiter) + cacheKeyEscaper.Replace(res))
''')],
"key-fmt": [(A, '''		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(act))
		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(res))
''', '''		fmt.Fprintf(&key, ":%s:%s", cacheKeyEscaper.Replace(act), cacheKeyEscaper.Replace(res))
''')],
"key-bytes": [(A, '''	key.WriteString(keyTok)

	if cert''', '''	key.Grow(len(keyTok) + 64)
	key.WriteString(keyTok)

	if cert'''), (A, '''		key.WriteRune(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(act))''', '''		key.WriteByte(cacheKeyDelimiter)
		key.WriteString(cacheKeyEscaper.Replace(act))''')],
"key-once": [(A, '''	cached, ok := a.cache.Get(key.String())
	if ok {''', '''	cacheKey := key.String()
	cached, ok := a.cache.Get(cacheKey)
	if ok {'''), (A, '''	a.cache.SetWithExpire(key.String(), p, a.cacheExp)''', '''	a.cache.SetWithExpire(cacheKey, p, a.cacheExp)''')],
"cache-switch": [(A, '''	cached, ok := a.cache.Get(key.String())
	if ok {
		// the result of one token type is never used for the other token type
		if _, isAccessToken := cached.(OAuthAccessToken); isAccessToken == (m == accessToken) {
			glg.DebugFunc(func() string {
				return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
			})
			return cached.(Principal), nil
		}
	}
''', '''	if cached, ok := a.cache.Get(key.String()); ok {
		isAccess := false
		switch cached.(type) {
		case OAuthAccessToken:
			isAccess = true
		}
		if isAccess == (m == accessToken) {
			glg.DebugFunc(func() string {
				return fmt.Sprintf("use cached result. masked tok: %s, masked key: %s", maskToken(m, tok), maskCacheKey(key.String(), keyTok))
			})
			return cached.(Principal), nil
		}
	}
''')],
"params-first": [(A, '''	var key strings.Builder
	keyTok :=''', '''	if !a.disablePolicyd && (act == "" || res == "") {
		return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
	}
	var key strings.Builder
	keyTok :='''), (A, '''		if act == "" || res == "" {
			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
		}
		key.WriteRune''', '''		key.WriteRune''')],
"params-len": [(A, '''		if act == "" || res == "" {
			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
		}
''', '''		switch {
		case len(act) == 0:
			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
		case len(res) == 0:
			return nil, errors.Wrap(ErrInvalidParameters, "empty action / resource")
		}
''')],
"process-helper": [(A, '''	switch m {
	case roleToken:
		if a.roleProcessor == nil {
			return nil, errors.Wrap(ErrInvalidCredentials, "role token is disabled")
		}
		rt, err := a.roleProcessor.ParseAndValidateRoleToken(tok)
		if err != nil {
			glg.Infof("error parse and validate role token, err: %v", err)
			return nil, errors.Wrap(err, "error authorize role token")
		}
		domain = rt.Domain
		roles = rt.Roles
		p = &principal{
			name:       rt.Principal,
			roles:      rt.Roles,
			domain:     rt.Domain,
			issueTime:  rt.TimeStamp.Unix(),
			expiryTime: rt.ExpiryTime.Unix(),
		}
''', '''	switch m {
	case roleToken:
		rp, err := a.rolePrincipal(tok)
		if err != nil {
			return nil, err
		}
		domain, roles, p = rp.domain, rp.roles, rp
'''), (A, '''// Verify returns error of verification.''', '''func (a *authority) rolePrincipal(tok string) (*principal, error) {
	if a.roleProcessor == nil {
		return nil, errors.Wrap(ErrInvalidCredentials, "role token is disabled")
	}
	rt, err := a.roleProcessor.ParseAndValidateRoleToken(tok)
	if err != nil {
		glg.Infof("error parse and validate role token, err: %v", err)
		return nil, errors.Wrap(err, "error authorize role token")
	}
	p := new(principal)
	p.expiryTime = rt.ExpiryTime.Unix()
	p.issueTime = rt.TimeStamp.Unix()
	p.name, p.domain, p.roles = rt.Principal, rt.Domain, rt.Roles
	return p, nil
}

// Verify returns error of verification.''')],
"process-if": [(A, '''	switch m {
	case roleToken:
		if a.roleProcessor''', '''	if m == roleToken {
		if a.roleProcessor'''), (A, '''	case accessToken:
		if a.accessProcessor == nil {''', '''	} else if m == accessToken {
		if a.accessProcessor == nil {''')],
"policy-helper": [(A, '''		res = a.resourcePrefix + res
		authorizedRoles, err := a.policyd.CheckPolicyRoles(ctx, domain, roles, act, res)
		if err != nil {
			glg.Infof("check policy error, err: %v, principal: %s, action: %s, resource: %s", err, p.Name(), act, res)
			return nil, errors.Wrap(err, "token unauthorized")
		}

		switch typedP := p.(type) {
		case *principal:
			typedP.authorizedRoles = authorizedRoles
		case *oAuthAccessToken:
			typedP.authorizedRoles = authorizedRoles
		}
''', '''		if err := a.allow(ctx, p, domain, roles, act, res); err != nil {
			return nil, err
		}
'''), (A, '''// Verify returns error of verification.''', '''func (a *authority) allow(ctx context.Context, p Principal, domain string, roles []string, act, res string) error {
	full := a.resourcePrefix + res
	allowed, err := a.policyd.CheckPolicyRoles(ctx, domain, roles, act, full)
	if err != nil {
		glg.Infof("check policy error, err: %v, principal: %s, action: %s, resource: %s", err, p.Name(), act, full)
		return errors.Wrap(err, "token unauthorized")
	}
	if t, ok := p.(*principal); ok {
		t.authorizedRoles = allowed
	} else if t, ok := p.(*oAuthAccessToken); ok {
		t.authorizedRoles = allowed
	}
	return nil
}

// Verify returns error of verification.''')],
"verify-reuse": [(A, '''	_, err := a.authorize(ctx, roleToken, tok, act, res, "", nil)
	return err''', '''	_, err := a.AuthorizeRoleToken(ctx, tok, act, res)
	return err'''), (A, '''	for _, verifier := range a.authorizers {
		// OR logic on multiple credentials
		_, err := verifier(r, act, res)
		if err == nil {
			return nil
		}
	}

	return ErrInvalidCredentials''', '''	_, err := a.Authorize(r, act, res)
	return err''')],
"verify-index": [(A, '''	for _, verifier := range a.authorizers {
		// OR logic on multiple credentials
		_, err := verifier(r, act, res)
		if err == nil {
			return nil
		}
	}
''', '''	for i := 0; i < len(a.authorizers); i++ {
		if _, err := a.authorizers[i](r, act, res); err != nil {
			continue
		}
		return nil
	}
''')],
"verifier-cert": [(A, '''			if r.TLS != nil && len(r.TLS.PeerCertificates) != 0 {
				return a.authorize(r.Context(), accessToken, tokenString, act, res, r.URL.RawQuery, r.TLS.PeerCertificates[0])
			}
			return a.authorize(r.Context(), accessToken, tokenString, act, res, r.URL.RawQuery, nil)
''', '''			var cert *x509.Certificate
			if r.TLS != nil && len(r.TLS.PeerCertificates) > 0 {
				cert = r.TLS.PeerCertificates[0]
			}
			return a.authorize(r.Context(), accessToken, tokenString, act, res, r.URL.RawQuery, cert)
''')],
"verifier-methods": [(A, '''		rtVerifier := func(r *http.Request, act, res string) (Principal, error) {
			return a.authorize(r.Context(), roleToken, r.Header.Get(a.roleAuthHeader), act, res, r.URL.RawQuery, nil)
		}
		glg.Info("initAuthorizers: added role token authorizer")
		authorizers = append(authorizers, rtVerifier)''', '''		glg.Info("initAuthorizers: added role token authorizer")
		authorizers = append(authorizers, a.byRoleToken)'''), (A, '''// Init initializes child daemons synchronously.
func (a *authority) Init''', '''func (a *authority) byRoleToken(r *http.Request, act, res string) (Principal, error) {
	tok := r.Header.Get(a.roleAuthHeader)
	return a.authorize(r.Context(), roleToken, tok, act, res, r.URL.RawQuery, nil)
}

// Init initializes child daemons synchronously.
func (a *authority) Init''')],
"authorizers-direct": [(A, '''	// resize
	a.authorizers = make([]authorizer, len(authorizers))
	copy(a.authorizers[0:], authorizers)
	return nil''', '''	a.authorizers = authorizers
	return nil''')],
"authorizers-append": [(A, '''	// resize
	a.authorizers = make([]authorizer, len(authorizers))
	copy(a.authorizers[0:], authorizers)
	return nil''', '''	a.authorizers = append([]authorizer(nil), authorizers...)
	return nil''')],
"init-restructure": [(A, '''			if !a.disablePubkeyd {
				err := a.pubkeyd.Update(egCtx)
				if err != nil {
					return err
				}
			}
			if !a.disablePolicyd {
				return a.policyd.Update(egCtx)
			}
			return nil
''', '''			if !a.disablePubkeyd {
				if err := a.pubkeyd.Update(egCtx); err != nil {
					return err
				}
			}
			if a.disablePolicyd {
				return nil
			}
			return a.policyd.Update(egCtx)
''')],
"init-ctxerr": [(A, '''			select {
			case <-egCtx.Done():
				return egCtx.Err()
			default:
				return a.jwkd.Update(egCtx)
			}
''', '''			if err := egCtx.Err(); err != nil {
				return err
			}
			return a.jwkd.Update(egCtx)
''')],
"start-order": [(A, '''	if !a.disablePubkeyd {
		cech = a.pubkeyd.Start(ctx)
	}
	if !a.disablePolicyd {
		pech = a.policyd.Start(ctx)
	}
	if !a.disableJwkd {
		jech = a.jwkd.Start(ctx)
	}
''', '''	if !a.disableJwkd {
		jech = a.jwkd.Start(ctx)
	}
	if !a.disablePolicyd {
		pech = a.policyd.Start(ctx)
	}
	if !a.disablePubkeyd {
		cech = a.pubkeyd.Start(ctx)
	}
''')],
"start-method": [(A, '''	go func() {
		defer close(ech)
		for {
			select {
			case <-ctx.Done():
				g.Stop()
				g.Clear()
				ech <- ctx.Err()
				return
			case err''', '''	done := func() {
		g.Stop()
		g.Clear()
		ech <- ctx.Err()
	}
	go func() {
		defer close(ech)
		for {
			select {
			case <-ctx.Done():
				done()
				return
			case err''')],
"start-forward": [(A, '''			case err := <-cech:
				if err != nil {
					ech <- errors.Wrap(err, "update pubkey error")
				}
''', '''			case err := <-cech:
				if err == nil {
					continue
				}
				ech <- errors.Wrap(err, "update pubkey error")
''')],
"cert-helper": [(A, '''	for _, cert := range peerCerts {
		subj := cert.Subject.CommonName
		dr := strings.SplitN(subj, roleInCNDelimiter, 2)
		// dr will be just ignored when subj doesn't represents a role (not contains ":role.")
		addDomainRoles(dr)

		for _, uri := range cert.URIs {
			if strings.HasPrefix(uri.String(), a.roleCertURIPrefix) {
				dr := strings.SplitN(strings.TrimPrefix(uri.String(), a.roleCertURIPrefix), "/", 2) // domain/role
				addDomainRoles(dr)
			}
		}
	}
''', '''	for i := range peerCerts {
		cert := peerCerts[i]
		addDomainRoles(strings.SplitN(cert.Subject.CommonName, roleInCNDelimiter, 2))
		for _, uri := range cert.URIs {
			s := uri.String()
			if !strings.HasPrefix(s, a.roleCertURIPrefix) {
				continue
			}
			addDomainRoles(strings.SplitN(s[len(a.roleCertURIPrefix):], "/", 2))
		}
	}
''')],
"cert-struct": [(A, '''	drcheck := make(map[[2]string]struct{})
	domainRoles := make(map[string][]string)
	addDomainRoles := func(dr []string) {
		if len(dr) != 2 {
			return
		}
		domain, roleName := dr[0], dr[1]
		// duplicated role check
		domainRole := [2]string{domain, roleName}
		if _, ok := drcheck[domainRole]; !ok {
			domainRoles[domain] = append(domainRoles[domain], roleName)
			drcheck[domainRole] = struct{}{}
		}
	}
''', '''	type domainRole struct{ domain, role string }
	drcheck := map[domainRole]bool{}
	domainRoles := map[string][]string{}
	addDomainRoles := func(dr []string) {
		if len(dr) == 2 {
			k := domainRole{dr[0], dr[1]}
			if drcheck[k] {
				return
			}
			drcheck[k] = true
			domainRoles[k.domain] = append(domainRoles[k.domain], k.role)
		}
	}
''')],
"cert-split": [(A, '''	if len(domainRoles) == 0 {
		return errors.New("invalid role certificate")
	}

	var err error
	for domain''', '''	return a.anyDomain(ctx, domainRoles, act, res)
}

func (a *authority) anyDomain(ctx context.Context, domainRoles map[string][]string, act, res string) error {
	if len(domainRoles) < 1 {
		return errors.New("invalid role certificate")
	}

	var err error
	for domain''')],
"policy-cache-else": [(A, '''	if !a.disablePolicyd {
		return a.policyd.GetPolicyCache(ctx)
	} else {
		return make(map[string]interface{})
	}''', '''	if a.disablePolicyd {
		return map[string]interface{}{}
	}
	return a.policyd.GetPolicyCache(ctx)''')],
"new-opts": [(A, '''	for _, opt := range append(defaultOptions, opts...) {
		if err = opt(prov); err != nil {
			return nil, errors.Wrap(err, "error creating authorizerd")
		}
	}
''', '''	all := make([]Option, 0, len(defaultOptions)+len(opts))
	all = append(all, defaultOptions...)
	all = append(all, opts...)
	for i := range all {
		if err := all[i](prov); err != nil {
			return nil, errors.Wrap(err, "error creating authorizerd")
		}
	}
''')],
"new-helper": [(A, '''	if !prov.disableJwkd {
		if prov.jwkd, err = jwk.New(
			jwk.WithAthenzJwksURL(prov.athenzURL),
			jwk.WithRefreshPeriod(prov.jwkRefreshPeriod),
			jwk.WithRetryDelay(prov.jwkRetryDelay),
			jwk.WithURLs(prov.jwkURLs),
			jwk.WithHTTPClient(prov.client),
		); err != nil {
			return nil, err
		}
		jwkPro = prov.jwkd.GetProvider()
	}
''', '''	if !prov.disableJwkd {
		if prov.jwkd, err = prov.newJwkd(); err != nil {
			return nil, err
		}
		jwkPro = prov.jwkd.GetProvider()
	}
'''), (A, '''func (a *authority) initAuthorizers() error {''', '''func (a *authority) newJwkd() (jwk.Daemon, error) {
	opts := []jwk.Option{
		jwk.WithAthenzJwksURL(a.athenzURL),
		jwk.WithURLs(a.jwkURLs),
		jwk.WithRefreshPeriod(a.jwkRefreshPeriod),
		jwk.WithRetryDelay(a.jwkRetryDelay),
		jwk.WithHTTPClient(a.client),
	}
	return jwk.New(opts...)
}

func (a *authority) initAuthorizers() error {''')],
"two-loops": [(A, '''	for _, opt := range append(defaultOptions, opts...) {
		if err = opt(prov); err != nil {
			return nil, errors.Wrap(err, "error creating authorizerd")
		}
	}
''', '''	for _, opt := range defaultOptions {
		if err = opt(prov); err != nil {
			return nil, errors.Wrap(err, "error creating authorizerd")
		}
	}
	for _, opt := range opts {
		if err = opt(prov); err != nil {
			return nil, errors.Wrap(err, "error creating authorizerd")
		}
	}
''')],
}
R.update({
"cert-linear": [(A, '''		// duplicated role check
		domainRole := [2]string{domain, roleName}
		if _, ok := drcheck[domainRole]; !ok {
			domainRoles[domain] = append(domainRoles[domain], roleName)
			drcheck[domainRole] = struct{}{}
		}
''', '''		// duplicated role check
		for _, r := range domainRoles[domain] {
			if r == roleName {
				return
			}
		}
		domainRoles[domain] = append(domainRoles[domain], roleName)
'''), (A, '''	drcheck := make(map[[2]string]struct{})
''', '')],
"cert-cut": [(A, '''		dr := strings.SplitN(subj, roleInCNDelimiter, 2)
		// dr will be just ignored when subj doesn't represents a role (not contains ":role.")
		addDomainRoles(dr)
''', '''		if i := strings.Index(subj, roleInCNDelimiter); i >= 0 {
			addDomainRoles([]string{subj[:i], subj[i+len(roleInCNDelimiter):]})
		}
''')],
"cert-nested-map": [(A, '''	drcheck := make(map[[2]string]struct{})
''', '''	drcheck := make(map[string]map[string]struct{})
'''), (A, '''		domainRole := [2]string{domain, roleName}
		if _, ok := drcheck[domainRole]; !ok {
			domainRoles[domain] = append(domainRoles[domain], roleName)
			drcheck[domainRole] = struct{}{}
		}
''', '''		if drcheck[domain] == nil {
			drcheck[domain] = make(map[string]struct{})
		}
		if _, ok := drcheck[domain][roleName]; !ok {
			domainRoles[domain] = append(domainRoles[domain], roleName)
			drcheck[domain][roleName] = struct{}{}
		}
''')],
})
