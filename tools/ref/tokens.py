P = "role/processor.go"; T = "role/token.go"; A = "access/processor.go"; C = "access/claim.go"
KF = '''	keyID, err := getAsStringFromHeader(&token.Header, jws.KeyIDKey)
	// kid is required and will return if an error occurs
	if err != nil {
		return nil, errors.New(err.Error() + ":" + jws.KeyIDKey)
	}

	jwkSetURL, err := getAsStringFromHeader(&token.Header, jws.JWKSetURLKey)
	// return not string error or nil header error.
	// If not found error, assume it is an athenz token and continue.
	if err == errHeaderValueNotString || err == errNilHeader {
		return nil, errors.New(err.Error() + ":" + jws.JWKSetURLKey)
	}
'''
R = {
"split-index": [(P, '''	st := strings.SplitN(tok, ";s=", 2)
	if len(st) != 2 {
		return nil, errors.Wrap(ErrRoleTokenInvalid, "no signature found")
	}

	rt := &Token{
		UnsignedToken: st[0],
		Signature:     st[1],
	}

	for _, pair := range strings.Split(st[0], ";") {''', '''	i := strings.Index(tok, ";s=")
	if i < 0 {
		return nil, errors.Wrap(ErrRoleTokenInvalid, "no signature found")
	}

	rt := &Token{
		UnsignedToken: tok[:i],
		Signature:     tok[i+len(";s="):],
	}

	for _, pair := range strings.Split(rt.UnsignedToken, ";") {''')],
"split-cut": [(P, '''	st := strings.SplitN(tok, ";s=", 2)
	if len(st) != 2 {
		return nil, errors.Wrap(ErrRoleTokenInvalid, "no signature found")
	}

	rt := &Token{
		UnsignedToken: st[0],
		Signature:     st[1],
	}

	for _, pair := range strings.Split(st[0], ";") {''', '''	unsigned, sig, found := strings.Cut(tok, ";s=")
	if !found {
		return nil, errors.Wrap(ErrRoleTokenInvalid, "no signature found")
	}

	rt := &Token{
		UnsignedToken: unsigned,
		Signature:     sig,
	}

	for _, pair := range strings.Split(unsigned, ";") {''')],
"pair-helper": [(P, '''		kv := strings.SplitN(pair, "=", 2)
		if len(kv) != 2 {
			return nil, errors.Wrap(ErrRoleTokenInvalid, "invalid key value format")
		}
		if err := rt.SetParams(kv[0], kv[1]); err != nil {
			return nil, errors.Wrap(err, "error setting value")
		}
''', '''		if err := rt.setPair(pair); err != nil {
			return nil, err
		}
'''), (P, '''func (r *rtp) validate(''', '''func (t *Token) setPair(pair string) error {
	kv := strings.SplitN(pair, "=", 2)
	if len(kv) < 2 {
		return errors.Wrap(ErrRoleTokenInvalid, "invalid key value format")
	}
	return errors.Wrap(t.SetParams(kv[0], kv[1]), "error setting value")
}

func (r *rtp) validate(''')],
"pair-cut": [(P, '''		kv := strings.SplitN(pair, "=", 2)
		if len(kv) != 2 {
			return nil, errors.Wrap(ErrRoleTokenInvalid, "invalid key value format")
		}
		if err := rt.SetParams(kv[0], kv[1]); err != nil {''', '''		k, v, ok := strings.Cut(pair, "=")
		if !ok {
			return nil, errors.Wrap(ErrRoleTokenInvalid, "invalid key value format")
		}
		if err := rt.SetParams(k, v); err != nil {''')],
"pair-index-loop": [(P, '''	for _, pair := range strings.Split(st[0], ";") {
''', '''	pairs := strings.Split(st[0], ";")
	for i := 0; i < len(pairs); i++ {
		pair := pairs[i]
''')],
"parse-else": [(P, '''	rt, err := r.parseToken(tok)
	if err != nil {
		return nil, errors.Wrap(err, "error parse role token")
	}

	if err = r.validate(rt); err != nil {
		return nil, errors.Wrap(err, "error validate role token")
	}
	return rt, nil
''', '''	rt, err := r.parseToken(tok)
	if err == nil {
		err = r.validate(rt)
		if err == nil {
			return rt, nil
		}
		return nil, errors.Wrap(err, "error validate role token")
	}
	return nil, errors.Wrap(err, "error parse role token")
''')],
"validate-inline": [(P, '''	if err = r.validate(rt); err != nil {
		return nil, errors.Wrap(err, "error validate role token")
	}
	return rt, nil
''', '''	err = r.validate(rt)
	switch err {
	case nil:
		return rt, nil
	default:
		return nil, errors.Wrap(err, "error validate role token")
	}
''')],
"validate-verifier": [(P, '''	if r.pkp == nil {
		return errors.Wrap(ErrRoleTokenInvalid, "no public key provider to verify role token")
	}
	ver := r.pkp(pubkey.EnvZTS, rt.KeyID)
	if ver == nil {
		return errors.Wrapf(ErrRoleTokenInvalid, "invalid role token key ID %s. principal %s", rt.KeyID, rt.Principal)
	}
	return ver.Verify(rt.UnsignedToken, rt.Signature)
''', '''	if r.pkp == nil {
		return errors.Wrap(ErrRoleTokenInvalid, "no public key provider to verify role token")
	}
	if ver := r.pkp(pubkey.EnvZTS, rt.KeyID); ver != nil {
		if err := ver.Verify(rt.UnsignedToken, rt.Signature); err != nil {
			return err
		}
		return nil
	}
	return errors.Wrapf(ErrRoleTokenInvalid, "invalid role token key ID %s. principal %s", rt.KeyID, rt.Principal)
''')],
"validate-order": [(P, '''	if rt.Expired() {
		return errors.Wrapf(ErrRoleTokenExpired, "token expired. principal %s", rt.Principal)
	}
	if r.pkp == nil {''', '''	if r.pkp == nil {'''), (P, '''	return ver.Verify(rt.UnsignedToken, rt.Signature)
''', '''	if rt.Expired() {
		return errors.Wrapf(ErrRoleTokenExpired, "token expired. principal %s", rt.Principal)
	}
	return ver.Verify(rt.UnsignedToken, rt.Signature)
''')],
"expired-before": [(T, '''	return fastime.Now().After(r.ExpiryTime)''', '''	return r.ExpiryTime.Before(fastime.Now())''')],
"expired-sub": [(T, '''	return fastime.Now().After(r.ExpiryTime)''', '''	return r.ExpiryTime.Sub(fastime.Now()) < 0''')],
"setparams-if": [(T, '''	case "k":
		r.KeyID = value
	case "p":
		r.Principal = value
''', '''	case "p":
		r.Principal = value
	case "k":
		r.KeyID = value
''')],
"setparams-time-helper": [(T, '''		i, err := strconv.ParseInt(value, 10, 64)
		if err != nil {
			return errors.Wrap(err, "invalid expiry time")
		}
		r.ExpiryTime = time.Unix(i, 0)
''', '''		t, err := parseUnix(value)
		if err != nil {
			return errors.Wrap(err, "invalid expiry time")
		}
		r.ExpiryTime = t
'''), (T, '''		i, err := strconv.ParseInt(value, 10, 64)
		if err != nil {
			return errors.Wrap(err, "invalid timestamp")
		}
		r.TimeStamp = time.Unix(i, 0)
''', '''		t, err := parseUnix(value)
		if err != nil {
			return errors.Wrap(err, "invalid timestamp")
		}
		r.TimeStamp = t
'''), (T, '''// Expired returns''', '''func parseUnix(s string) (time.Time, error) {
	i, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return time.Time{}, err
	}
	return time.Unix(i, 0), nil
}

// Expired returns''')],
"setparams-chain": [(T, '''	switch key {
	// case "a":
	// r.Salt = value
	case "d":
		r.Domain = value
	case "e":
''', '''	if key == "d" {
		r.Domain = value
		return nil
	}
	switch key {
	case "e":
''')],
# access
"at-switch": [(A, '''	if a.enableVerifyClientID {
		err := a.validateClientID(cert, claims)
		if err != nil {
			return nil, err
		}
	}
''', '''	if a.enableVerifyClientID {
		if err := a.validateClientID(cert, claims); err != nil {
			return nil, err
		}
	}
''')],
"at-order": [(A, '''	// validate client_id of AccessToken
	if a.enableVerifyClientID {
		err := a.validateClientID(cert, claims)
		if err != nil {
			return nil, err
		}
	}

	// certificate bound access token
	if a.enableMTLSCertificateBoundAccessToken {
		err := a.validateCertificateBoundAccessToken(cert, claims)
		if err != nil {
			return nil, err
		}
	}
''', '''	// certificate bound access token
	if a.enableMTLSCertificateBoundAccessToken {
		err := a.validateCertificateBoundAccessToken(cert, claims)
		if err != nil {
			return nil, err
		}
	}

	// validate client_id of AccessToken
	if a.enableVerifyClientID {
		err := a.validateClientID(cert, claims)
		if err != nil {
			return nil, err
		}
	}
''')],
"at-checks-helper": [(A, '''	// validate client_id of AccessToken
	if a.enableVerifyClientID {
		err := a.validateClientID(cert, claims)
		if err != nil {
			return nil, err
		}
	}

	// certificate bound access token
	if a.enableMTLSCertificateBoundAccessToken {
		err := a.validateCertificateBoundAccessToken(cert, claims)
		if err != nil {
			return nil, err
		}
	}

	return claims, nil
}
''', '''	if err := a.validateBinding(cert, claims); err != nil {
		return nil, err
	}
	return claims, nil
}

func (a *atp) validateBinding(cert *x509.Certificate, claims *OAuth2AccessTokenClaim) (err error) {
	if a.enableVerifyClientID {
		err = a.validateClientID(cert, claims)
	}
	if err == nil && a.enableMTLSCertificateBoundAccessToken {
		err = a.validateCertificateBoundAccessToken(cert, claims)
	}
	return err
}
''')],
"at-checks-table": [(A, '''	// validate client_id of AccessToken
	if a.enableVerifyClientID {
		err := a.validateClientID(cert, claims)
		if err != nil {
			return nil, err
		}
	}

	// certificate bound access token
	if a.enableMTLSCertificateBoundAccessToken {
		err := a.validateCertificateBoundAccessToken(cert, claims)
		if err != nil {
			return nil, err
		}
	}
''', '''	for _, check := range []struct {
		on bool
		f  func(*x509.Certificate, *OAuth2AccessTokenClaim) error
	}{
		{a.enableVerifyClientID, a.validateClientID},
		{a.enableMTLSCertificateBoundAccessToken, a.validateCertificateBoundAccessToken},
	} {
		if !check.on {
			continue
		}
		if err := check.f(cert, claims); err != nil {
			return nil, err
		}
	}
''')],
"at-valid-split": [(A, '''	if !ok || !tok.Valid {
		return nil, errors.New("error invalid access token")
	}
''', '''	if !tok.Valid {
		return nil, errors.New("error invalid access token")
	}
	if !ok {
		return nil, errors.New("error invalid access token claims")
	}
''')],
"at-claims-var": [(A, '''	tok, err := jwt.ParseWithClaims(cred, &OAuth2AccessTokenClaim{}, a.keyFunc)''', '''	var c OAuth2AccessTokenClaim
	tok, err := jwt.ParseWithClaims(cred, &c, a.keyFunc)''')],
"cid-contains": [(A, '''	for _, v := range clientIDs {
		if v == clientID {
			return nil
		}
	}
	return errors.Errorf("error %v is not authorized %v", clientID, cn)
''', '''	if !contains(clientIDs, clientID) {
		return errors.Errorf("error %v is not authorized %v", clientID, cn)
	}
	return nil
'''), (A, '''// keyFunc extract''', '''func contains(list []string, s string) bool {
	for i := range list {
		if list[i] == s {
			return true
		}
	}
	return false
}

// keyFunc extract''')],
"cid-direct": [(A, '''	cn := cert.Subject.CommonName
	clientID := claims.ClientID
	clientIDs := a.authorizedClientIDs[cn]

	for _, v := range clientIDs {
		if v == clientID {
			return nil
		}
	}
	return errors.Errorf("error %v is not authorized %v", clientID, cn)
''', '''	for _, v := range a.authorizedClientIDs[cert.Subject.CommonName] {
		if claims.ClientID == v {
			return nil
		}
	}
	return errors.Errorf("error %v is not authorized %v", claims.ClientID, cert.Subject.CommonName)
''')],
"cnf-thumb-helper": [(A, '''		sum := sha256.Sum256(cert.Raw)
		if base64.RawURLEncoding.EncodeToString(sum[:]) == certThumbprint {
			return nil
		}
''', '''		if thumbprint(cert) == certThumbprint {
			return nil
		}
'''), (A, '''// keyFunc extract''', '''func thumbprint(cert *x509.Certificate) string {
	sum := sha256.Sum256(cert.Raw)
	return base64.RawURLEncoding.EncodeToString(sum[:])
}

// keyFunc extract''')],
"cnf-or": [(A, '''		if base64.RawURLEncoding.EncodeToString(sum[:]) == certThumbprint {
			return nil
		}

		// If cnf check fails, check to allow if the certificate has been refresh
		if err := a.validateCertPrincipal(cert, claims); err == nil {
			return nil
		}
''', '''		if base64.RawURLEncoding.EncodeToString(sum[:]) == certThumbprint || a.validateCertPrincipal(cert, claims) == nil {
			return nil
		}
''')],
"cnf-split-methods": [(A, '''	if certThumbprint, ok := claims.Confirm[confirmMethodCertThumbprint].(string); ok {
		// cnf check
		sum := sha256.Sum256(cert.Raw)
		if base64.RawURLEncoding.EncodeToString(sum[:]) == certThumbprint {
			return nil
		}

		// If cnf check fails, check to allow if the certificate has been refresh
		if err := a.validateCertPrincipal(cert, claims); err == nil {
			return nil
		}
	}

	// validate the proxy principal.
	if proxyPrincipals, ok := claims.Confirm[confirmMethodProxyPrincipals].([]interface{}); ok {
		valid := make(map[string]struct{}, len(proxyPrincipals))
		for _, value := range proxyPrincipals {
			if spiffe, ok := value.(string); ok {
				valid[spiffe] = struct{}{}
			}
		}
		for _, uri := range cert.URIs {
			if _, ok := valid[uri.String()]; ok {
				return nil
			}
		}
	}

	return errors''', '''	if a.boundByThumbprint(cert, claims) || boundByProxy(cert, claims) {
		return nil
	}
	return errors'''), (A, '''// keyFunc extract''', '''func (a *atp) boundByThumbprint(cert *x509.Certificate, claims *OAuth2AccessTokenClaim) bool {
	certThumbprint, ok := claims.Confirm[confirmMethodCertThumbprint].(string)
	if !ok {
		return false
	}
	sum := sha256.Sum256(cert.Raw)
	if base64.RawURLEncoding.EncodeToString(sum[:]) == certThumbprint {
		return true
	}
	return a.validateCertPrincipal(cert, claims) == nil
}

func boundByProxy(cert *x509.Certificate, claims *OAuth2AccessTokenClaim) bool {
	list, ok := claims.Confirm[confirmMethodProxyPrincipals].([]interface{})
	if !ok {
		return false
	}
	valid := make(map[string]bool, len(list))
	for _, value := range list {
		if spiffe, ok := value.(string); ok {
			valid[spiffe] = true
		}
	}
	for _, uri := range cert.URIs {
		if valid[uri.String()] {
			return true
		}
	}
	return false
}

// keyFunc extract''')],
"proxy-nested": [(A, '''		valid := make(map[string]struct{}, len(proxyPrincipals))
		for _, value := range proxyPrincipals {
			if spiffe, ok := value.(string); ok {
				valid[spiffe] = struct{}{}
			}
		}
		for _, uri := range cert.URIs {
			if _, ok := valid[uri.String()]; ok {
				return nil
			}
		}
''', '''		for _, uri := range cert.URIs {
			id := uri.String()
			for _, value := range proxyPrincipals {
				if spiffe, ok := value.(string); ok && spiffe == id {
					return nil
				}
			}
		}
''')],
"proxy-nested2": [(A, '''		valid := make(map[string]struct{}, len(proxyPrincipals))
		for _, value := range proxyPrincipals {
			if spiffe, ok := value.(string); ok {
				valid[spiffe] = struct{}{}
			}
		}
		for _, uri := range cert.URIs {
			if _, ok := valid[uri.String()]; ok {
				return nil
			}
		}
''', '''		for _, value := range proxyPrincipals {
			spiffe, ok := value.(string)
			if !ok {
				continue
			}
			for _, uri := range cert.URIs {
				if uri.String() == spiffe {
					return nil
				}
			}
		}
''')],
"refresh-window": [(A, '''	if certActualIssueTime < atIssueTime {
		return errors.Errorf("error certificate: issued before access token: cert = %v, tok = %v", certActualIssueTime, atIssueTime)
	}
	// Issue time check. Determine if certificate's issue time is within an allowed range
	if certActualIssueTime > atIssueTime+a.clientCertificateOffsetSeconds {
''', '''	age := certActualIssueTime - atIssueTime
	if age < 0 {
		return errors.Errorf("error certificate: issued before access token: cert = %v, tok = %v", certActualIssueTime, atIssueTime)
	}
	// Issue time check. Determine if certificate's issue time is within an allowed range
	if age > a.clientCertificateOffsetSeconds {
''')],
"refresh-names": [(A, '''	cn := cert.Subject.CommonName
	if cn == "" {
		return errors.New("error subject common name of client certificate is empty")
	}
	clientID := claims.ClientID
	if clientID == "" {
		return errors.New("error client_id of access token is empty")
	}
	if cn != clientID {
''', '''	cn, clientID := cert.Subject.CommonName, claims.ClientID
	if cn == "" || len(clientID) == 0 {
		return errors.New("error subject common name of client certificate or client_id is empty")
	}
	if clientID != cn {
''')],
"refresh-one-name": [(A, '''	clientID := claims.ClientID
	if clientID == "" {
		return errors.New("error client_id of access token is empty")
	}
	if cn != clientID {''', '''	clientID := claims.ClientID
	if cn != clientID {''')],
"kf-switch": [(A, '''	if err == errHeaderValueNotString || err == errNilHeader {
		return nil, errors.New(err.Error() + ":" + jws.JWKSetURLKey)
	}
''', '''	switch err {
	case errHeaderValueNotString, errNilHeader:
		return nil, errors.New(err.Error() + ":" + jws.JWKSetURLKey)
	}
''')],
"kf-notfound": [(A, '''	if err == errHeaderValueNotString || err == errNilHeader {
''', '''	if err != nil && err != errKeyNotFoundInHeader {
''')],
"kf-direct": [(A, KF, '''	keyID, ok := token.Header[jws.KeyIDKey].(string)
	if !ok {
		return nil, errHeaderValueNotString
	}
	var jwkSetURL string
	if v, has := token.Header[jws.JWKSetURLKey]; has {
		if jwkSetURL, ok = v.(string); !ok {
			return nil, errHeaderValueNotString
		}
	}
''')],
"kf-lookup-helper": [(A, '''	if a.jwkp == nil {
		return nil, errors.New("no jwk provider to verify access token")
	}
	key := a.jwkp(keyID, jwkSetURL)

	if key == nil {
		return nil, errors.Errorf("key cannot be found, keyID: %s jwkSetURL: %s", keyID, jwkSetURL)
	}

	return key, nil
''', '''	return a.lookup(keyID, jwkSetURL)
'''), (A, '''// getAsStringFromHeader return string''', '''func (a *atp) lookup(keyID, url string) (interface{}, error) {
	if a.jwkp == nil {
		return nil, errors.New("no jwk provider to verify access token")
	}
	if key := a.jwkp(keyID, url); key != nil {
		return key, nil
	}
	return nil, errors.Errorf("key cannot be found, keyID: %s jwkSetURL: %s", keyID, url)
}

// getAsStringFromHeader return string''')],
"hdr-compact": [(A, '''	var ok bool

	if header == nil {
		return "", errNilHeader
	}

	var v interface{}
	if v, ok = (*header)[key]; !ok {
		return "", errKeyNotFoundInHeader
	}

	var value string
	if value, ok = v.(string); !ok {
		return "", errHeaderValueNotString
	}

	return value, nil
''', '''	if header == nil {
		return "", errNilHeader
	}
	v, ok := (*header)[key]
	if !ok {
		return "", errKeyNotFoundInHeader
	}
	if value, ok := v.(string); ok {
		return value, nil
	}
	return "", errHeaderValueNotString
''')],
"valid-early": [(C, '''	if vErr.Errors == 0 {
		return nil
	}

	return vErr
''', '''	if vErr.Errors != 0 {
		return vErr
	}
	return nil
''')],
"valid-fail-fast": [(C, '''	vErr := new(jwt.ValidationError)
	now := jwt.TimeFunc().Unix()
''', '''	now := jwt.TimeFunc().Unix()
	vErr := &jwt.ValidationError{}
'''), (C, '''	if !c.VerifyIssuedAt(now, false) {
		vErr.Inner = fmt.Errorf("Token used before issued")
		vErr.Errors |= jwt.ValidationErrorIssuedAt
	}

	if !c.VerifyNotBefore(now, false) {
		vErr.Inner = fmt.Errorf("token is not valid yet")
		vErr.Errors |= jwt.ValidationErrorNotValidYet
	}
''', '''	if !c.VerifyNotBefore(now, false) {
		vErr.Inner = fmt.Errorf("token is not valid yet")
		vErr.Errors |= jwt.ValidationErrorNotValidYet
	}

	if !c.VerifyIssuedAt(now, false) {
		vErr.Inner = fmt.Errorf("Token used before issued")
		vErr.Errors |= jwt.ValidationErrorIssuedAt
	}
''')],
"valid-helper": [(C, '''	if !c.VerifyIssuedAt(now, false) {
		vErr.Inner = fmt.Errorf("Token used before issued")
		vErr.Errors |= jwt.ValidationErrorIssuedAt
	}

	if !c.VerifyNotBefore(now, false) {
		vErr.Inner = fmt.Errorf("token is not valid yet")
		vErr.Errors |= jwt.ValidationErrorNotValidYet
	}
''', '''	c.checkStart(now, vErr)
'''), (C, '''// OAuth2AccessTokenClaim represents''', '''func (c *BaseClaim) checkStart(now int64, vErr *jwt.ValidationError) {
	if !c.VerifyIssuedAt(now, false) {
		vErr.Inner = fmt.Errorf("Token used before issued")
		vErr.Errors |= jwt.ValidationErrorIssuedAt
	}
	if !c.VerifyNotBefore(now, false) {
		vErr.Inner = fmt.Errorf("token is not valid yet")
		vErr.Errors |= jwt.ValidationErrorNotValidYet
	}
}

// OAuth2AccessTokenClaim represents''')],
}
