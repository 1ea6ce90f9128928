D = "policy/daemon.go"; F = "policy/fetcher.go"; S = "policy/assertion.go"; V = "policy/signed_policy.go"
LOOP_OLD = '''					for _, ass := range asss.([]*Assertion) {
						glg.Debugf("Checking policy domain: %s, role: %v, action: %s, resource: %s, assertion: %v", domain, roles, action, resource, ass)
						select {
						case <-cctx.Done():
							ch <- roleEffect{Role: role, Effect: cctx.Err()}
							return
						default:
							// deny policies come first in rolePolicies, so it will return first before allow policies is checked
							if strings.EqualFold(ass.ResourceDomain, domain) &&
								ass.ActionRegexp.MatchString(strings.ToLower(action)) &&
								ass.ResourceRegexp.MatchString(strings.ToLower(resource)) {
								ch <- roleEffect{Role: role, Effect: ass.Effect}
								return
							}
						}
					}
'''
R = {
"match-helper": [(D, '''							if strings.EqualFold(ass.ResourceDomain, domain) &&
								ass.ActionRegexp.MatchString(strings.ToLower(action)) &&
								ass.ResourceRegexp.MatchString(strings.ToLower(resource)) {
''', '''							if ass.matches(domain, action, resource) {
'''), (D, '''// GetPolicyCache returns''', '''func (a *Assertion) matches(domain, action, resource string) bool {
	return strings.EqualFold(a.ResourceDomain, domain) &&
		a.ActionRegexp.MatchString(strings.ToLower(action)) &&
		a.ResourceRegexp.MatchString(strings.ToLower(resource))
}

// GetPolicyCache returns''')],
"match-continue": [(D, '''							if strings.EqualFold(ass.ResourceDomain, domain) &&
								ass.ActionRegexp.MatchString(strings.ToLower(action)) &&
								ass.ResourceRegexp.MatchString(strings.ToLower(resource)) {
								ch <- roleEffect{Role: role, Effect: ass.Effect}
								return
							}
''', '''							if !strings.EqualFold(ass.ResourceDomain, domain) {
								continue
							}
							if !ass.ActionRegexp.MatchString(strings.ToLower(action)) {
								continue
							}
							if !ass.ResourceRegexp.MatchString(strings.ToLower(resource)) {
								continue
							}
							ch <- roleEffect{Role: role, Effect: ass.Effect}
							return
''')],
"lower-once": [(D, '''	ech := make(chan roleEffect, len(roles))
	cctx, cancel''', '''	act := strings.ToLower(action)
	res := strings.ToLower(resource)
	ech := make(chan roleEffect, len(roles))
	cctx, cancel'''), (D, '''MatchString(strings.ToLower(action))''', '''MatchString(act)'''), (D, '''MatchString(strings.ToLower(resource))''', '''MatchString(res)''')],
"order-match": [(D, '''							if strings.EqualFold(ass.ResourceDomain, domain) &&
								ass.ActionRegexp.MatchString(strings.ToLower(action)) &&
								ass.ResourceRegexp.MatchString(strings.ToLower(resource)) {
''', '''							if ass.ResourceRegexp.MatchString(strings.ToLower(resource)) &&
								ass.ActionRegexp.MatchString(strings.ToLower(action)) &&
								strings.EqualFold(domain, ass.ResourceDomain) {
''')],
"index-loop": [(D, LOOP_OLD, LOOP_OLD.replace('for _, ass := range asss.([]*Assertion) {', 'list := asss.([]*Assertion)\n\t\t\t\t\tfor i := 0; i < len(list); i++ {\n\t\t\t\t\t\tass := list[i]'))],
"role-func": [(D, '''			go func(role string, ch chan<- roleEffect) {
				defer wg.Done()
				select {
				case <-cctx.Done():
					ch <- roleEffect{Role: role, Effect: cctx.Err()}
					return
				default:
					asss, ok := rp.Get(dr)
					if !ok {
						return
					}

''' + LOOP_OLD + '''				}
			}(role, ech)
''', '''			go func(role string, ch chan<- roleEffect) {
				defer wg.Done()
				checkRole(cctx, rp, dr, domain, role, action, resource, ch)
			}(role, ech)
'''), (D, '''// GetPolicyCache returns''', '''func checkRole(cctx context.Context, rp gache.Gache, dr, domain, role, action, resource string, ch chan<- roleEffect) {
	if err := cctx.Err(); err != nil {
		ch <- roleEffect{Role: role, Effect: err}
		return
	}
	asss, ok := rp.Get(dr)
	if !ok {
		return
	}
	for _, ass := range asss.([]*Assertion) {
		select {
		case <-cctx.Done():
			ch <- roleEffect{Role: role, Effect: cctx.Err()}
			return
		default:
		}
		if strings.EqualFold(ass.ResourceDomain, domain) &&
			ass.ActionRegexp.MatchString(strings.ToLower(action)) &&
			ass.ResourceRegexp.MatchString(strings.ToLower(resource)) {
			ch <- roleEffect{Role: role, Effect: ass.Effect}
			return
		}
	}
}

// GetPolicyCache returns''')],
"cur-helper": [(D, '''		curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
		rp := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))

		for''', '''		rp := p.currentRolePolicies()
		for'''), (D, '''	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
	rp := *(*gache.Gache)(atomic.LoadPointer(curRpPtrPtr))
	return rp''', '''	return p.currentRolePolicies()''')],
"sprintf-concat": [(D, '''fmt.Sprintf("%s:role.%s", domain, role)''', '''domain + ":role." + role''')],
"wg-add-1": [(D, '''		wg.Add(len(roles))
''', ''), (D, '''			go func(role string, ch chan<- roleEffect) {''', '''			wg.Add(1)
			go func(role string, ch chan<- roleEffect) {''')],
"wg-value": [(D, '''		wg := new(sync.WaitGroup)
		wg.Add(len(roles))''', '''		var wg sync.WaitGroup
		wg.Add(len(roles))''')],
"collect-else": [(D, '''	if len(allowedRoles) > 0 {
		glg.Debugf("check policy domain: %s, role: %v, action: %s, resource: %s, result: %v", domain, roles, action, resource, nil)
		return allowedRoles, nil
	}
	err := errors.Wrap(ErrNoMatch, "no match")
	glg.Debugf("check policy domain: %s, role: %v, action: %s, resource: %s, result: %v", domain, roles, action, resource, err)
	return nil, err
''', '''	if len(allowedRoles) == 0 {
		err := errors.Wrap(ErrNoMatch, "no match")
		glg.Debugf("check policy domain: %s, role: %v, action: %s, resource: %s, result: %v", domain, roles, action, resource, err)
		return nil, err
	}
	glg.Debugf("check policy domain: %s, role: %v, action: %s, resource: %s, result: %v", domain, roles, action, resource, nil)
	return allowedRoles, nil
''')],
"collect-recv": [(D, '''	for re := range ech {
		if''', '''	for {
		re, more := <-ech
		if !more {
			break
		}
		if''')],
"collect-helper": [(D, '''	allowedRoles := make([]string, 0, len(roles))
	for re := range ech {
		if re.Effect != nil { // denied assertion is prioritize, so return directly
			glg.Debugf("check policy domain: %s, role: %v, action: %s, resource: %s, result: %v", domain, roles, action, resource, re.Effect)
			return nil, re.Effect
		}
		allowedRoles = append(allowedRoles, re.Role)
	}
''', '''	allowedRoles, derr := collect(ech)
	if derr != nil {
		return nil, derr
	}
'''), (D, '''// GetPolicyCache returns''', '''func collect(ech <-chan roleEffect) ([]string, error) {
	var allowed []string
	for re := range ech {
		if re.Effect != nil {
			return nil, re.Effect
		}
		allowed = append(allowed, re.Role)
	}
	return allowed, nil
}

// GetPolicyCache returns''')],
"simplify-inline-branch": [(D, '''		var asss []*Assertion
		if p, ok := rp.Get(ass.Role); ok {
			asss = p.([]*Assertion)
			if a.Effect == nil {
				asss = append(asss, a) // append allowed policies to the end of the slice
			} else {
				asss = append([]*Assertion{a}, asss...) // append denied policies to the head
			}
		} else {
			asss = []*Assertion{a}
		}
		rp.SetWithExpire''', '''		var asss []*Assertion
		if p, ok := rp.Get(ass.Role); ok {
			asss = p.([]*Assertion)
		}
		if a.Effect != nil {
			asss = append([]*Assertion{a}, asss...) // append denied policies to the head
		} else {
			asss = append(asss, a)
		}
		rp.SetWithExpire''')],
"ttl-first": [(D, '''		ttl := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now)
		if ttl <= 0 {
			glg.Warnf("policy already expired, role: %s", ass.Role)
			return false
		}

''', ''), (D, '''	assm.Range(func(k interface{}, val''', '''	ttl := sp.DomainSignedPolicyData.SignedPolicyData.Expires.Sub(now)
	if ttl <= 0 {
		glg.Warnf("policy already expired")
		return nil
	}
	assm.Range(func(k interface{}, val''')],
"mutex-map": [(D, '''	assm := new(sync.Map) // assertion map
''', '''	assm := make(map[[3]string]*util.Assertion)
	var mu sync.Mutex
'''), (D, '''					km := [...]string{ass.Role, ass.Action, ass.Resource}
					// deny policy will override allow policy, and also remove duplication
					if strings.EqualFold("deny", ass.Effect) {
						assm.Store(km, ass)
					} else {
						assm.LoadOrStore(km, ass)
					}
''', '''					km := [...]string{ass.Role, ass.Action, ass.Resource}
					mu.Lock()
					if _, ok := assm[km]; !ok || strings.EqualFold("deny", ass.Effect) {
						assm[km] = ass
					}
					mu.Unlock()
'''), (D, '''	assm.Range(func(k interface{}, val interface{}) bool {
		ass := val.(*util.Assertion)
		a, err''', '''	for _, ass := range assm {
		a, err'''), (D, '''			retErr = err
			return false
		}
''', '''			return err
		}
'''), (D, '''			glg.Warnf("policy already expired, role: %s", ass.Role)
			return false
''', '''			glg.Warnf("policy already expired, role: %s", ass.Role)
			return nil
'''), (D, '''		glg.Debugf("added assertion to the tmp cache: %+v", ass)
		return true
	})
	if retErr != nil {
		return retErr
	}
''', '''		glg.Debugf("added assertion to the tmp cache: %+v", ass)
	}
'''), (D, '''	var retErr error
	now''', '''	now''')],
"serial-simplify": [(D, '''	for _, policy := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
		pol := policy
		eg.Go(func() error {
			for _, ass := range pol.Assertions {
				select {
				case <-ctx.Done():
					return ctx.Err()
				default:
					km := [...]string{ass.Role, ass.Action, ass.Resource}
					// deny policy will override allow policy, and also remove duplication
					if strings.EqualFold("deny", ass.Effect) {
						assm.Store(km, ass)
					} else {
						assm.LoadOrStore(km, ass)
					}
				}
			}

			return nil
		})
	}

	if err := eg.Wait(); err != nil {
		return errors.Wrap(err, "error simplify and cache policy")
	}
''', '''	for _, pol := range sp.DomainSignedPolicyData.SignedPolicyData.PolicyData.Policies {
		for _, ass := range pol.Assertions {
			if err := ctx.Err(); err != nil {
				return errors.Wrap(err, "error simplify and cache policy")
			}
			km := [...]string{ass.Role, ass.Action, ass.Resource}
			// deny policy will override allow policy, and also remove duplication
			if strings.EqualFold("deny", ass.Effect) {
				assm.Store(km, ass)
			} else {
				assm.LoadOrStore(km, ass)
			}
		}
	}
'''), (D, '''	eg := errgroup.Group{}
	assm''', '''	assm''')],
"add-helper": [(D, '''		var asss []*Assertion
		if p, ok := rp.Get(ass.Role); ok {
			asss = p.([]*Assertion)
			if a.Effect == nil {
				asss = append(asss, a) // append allowed policies to the end of the slice
			} else {
				asss = append([]*Assertion{a}, asss...) // append denied policies to the head
			}
		} else {
			asss = []*Assertion{a}
		}
		rp.SetWithExpire(ass.Role, asss, ttl)
''', '''		rp.SetWithExpire(ass.Role, merge(rp, ass.Role, a), ttl)
'''), (D, '''func simplifyAndCachePolicy(''', '''func merge(rp gache.Gache, role string, a *Assertion) []*Assertion {
	p, ok := rp.Get(role)
	if !ok {
		return []*Assertion{a}
	}
	asss := p.([]*Assertion)
	if a.Effect == nil {
		return append(asss, a)
	}
	return append([]*Assertion{a}, asss...)
}

func simplifyAndCachePolicy(''')],
"effect-isdeny": [(D, '''					if strings.EqualFold("deny", ass.Effect) {''', '''					if isDeny(ass.Effect) {'''), (S, '''			if strings.EqualFold("deny", effect) {''', '''			if isDeny(effect) {'''), (S, '''func isRegexMeta''', '''func isDeny(effect string) bool {
	return strings.EqualFold(effect, "deny")
}

func isRegexMeta''')],
"effect-var": [(S, '''	return &Assertion{
		ResourceDomain: dom,''', '''	var eff error
	if strings.EqualFold("deny", effect) {
		eff = errors.Wrap(ErrDenyByPolicy, "policy deny")
	}
	return &Assertion{
		ResourceDomain: dom,'''), (S, '''		Effect: func() error {
			if strings.EqualFold("deny", effect) {
				return errors.Wrap(ErrDenyByPolicy, "policy deny")
			}
			return nil
		}(),
''', '''		Effect:         eff,
''')],
"split-index": [(S, '''	domres := strings.SplitN(resource, ":", 2)
	if len(domres) < 2 {
		return nil, errors.Wrap(ErrInvalidPolicyResource, "assertion format not correct")
	}
	dom := domres[0]
	res := domres[1]
''', '''	i := strings.Index(resource, ":")
	if i < 0 {
		return nil, errors.Wrap(ErrInvalidPolicyResource, "assertion format not correct")
	}
	dom, res := resource[:i], resource[i+1:]
''')],
"split-cut": [(S, '''	domres := strings.SplitN(resource, ":", 2)
	if len(domres) < 2 {
		return nil, errors.Wrap(ErrInvalidPolicyResource, "assertion format not correct")
	}
	dom := domres[0]
	res := domres[1]
''', '''	dom, res, ok := strings.Cut(resource, ":")
	if !ok {
		return nil, errors.Wrap(ErrInvalidPolicyResource, "assertion format not correct")
	}
''')],
"glob-helper": [(S, '''	ar, err := regexp.Compile(patternFromGlob(strings.ToLower(action)))''', '''	ar, err := compileGlob(action)'''), (S, '''	rr, err := regexp.Compile(patternFromGlob(strings.ToLower(res)))''', '''	rr, err := compileGlob(res)'''), (S, '''func isRegexMeta''', '''func compileGlob(glob string) (*regexp.Regexp, error) {
	return regexp.Compile(patternFromGlob(strings.ToLower(glob)))
}

func isRegexMeta''')],
"glob-switch": [(S, '''		if c == '*' {
			sb.WriteString(".*")
		} else if c == '?' {
			sb.WriteString(".")
		} else {
			if isRegexMetaCharacter(c) {
				sb.WriteString("\\\\")
			}
			sb.WriteRune(c)
		}
''', '''		switch {
		case c == '*':
			sb.WriteString(".*")
		case c == '?':
			sb.WriteByte('.')
		case isRegexMetaCharacter(c):
			sb.WriteByte('\\\\')
			fallthrough
		default:
			sb.WriteRune(c)
		}
''')],
"glob-concat": [(S, '''	var sb strings.Builder
	sb.WriteString("^")
''', '''	p := "^"
'''), (S, '''			sb.WriteString(".*")
		} else if c == '?' {
			sb.WriteString(".")
		} else {
			if isRegexMetaCharacter(c) {
				sb.WriteString("\\\\")
			}
			sb.WriteRune(c)
		}
	}
	sb.WriteString("$")
	return sb.String()
''', '''			p += ".*"
		} else if c == '?' {
			p += "."
		} else {
			if isRegexMetaCharacter(c) {
				p += "\\\\"
			}
			p += string(c)
		}
	}
	return p + "$"
''')],
"meta-contains": [(S, '''	switch target {
	case '^':
	case '$':
	case '.':
	case '|':
	case '[':
	case '+':
	case '\\\\':
	case '(':
	case ')':
	case '{':
	default:
		return false
	}
	return true
''', '''	return strings.ContainsRune("^$.|[+\\\\(){", target)
''')],
"meta-multi": [(S, '''	case '^':
	case '$':
	case '.':
	case '|':
	case '[':
	case '+':
	case '\\\\':
	case '(':
	case ')':
	case '{':
	default:
		return false
	}
	return true
''', '''	case '^', '$', '.', '|', '[', '+', '\\\\', '(', ')', '{':
		return true
	}
	return false
''')],
"glob-quote": [(S, '''			if isRegexMetaCharacter(c) {
				sb.WriteString("\\\\")
			}
			sb.WriteRune(c)
''', '''			sb.WriteString(regexp.QuoteMeta(string(c)))
'''), (S, S and '''func isRegexMetaCharacter(target rune) bool {''', '''func isRegexMetaCharacter(target rune) bool { // used by the tests''')],
# fetcher
"fetch-req-helper": [(F, '''	req, err := http.NewRequest(http.MethodGet, url, nil)
	if err != nil {
		errMsg := "create fetch policy request fail"
		glg.Errorf("%s, domain: %s, error: %v", errMsg, f.domain, err)
		return nil, errors.Wrap(err, errMsg)
	}

	// ETag header
	tp := (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
	if tp != nil && tp.eTag != "" && tp.eTagExpiry.After(fastime.Now()) {
		glg.Debugf("request on domain: %s, with ETag: %s", f.domain, tp.eTag)
		req.Header.Set("If-None-Match", tp.eTag)
	}
''', '''	tp := f.cached()
	req, err := f.newRequest(url, tp)
	if err != nil {
		errMsg := "create fetch policy request fail"
		glg.Errorf("%s, domain: %s, error: %v", errMsg, f.domain, err)
		return nil, errors.Wrap(err, errMsg)
	}
'''), (F, '''func (t *taggedPolicy) String() string {''', '''func (f *fetcher) cached() *taggedPolicy {
	return (*taggedPolicy)(atomic.LoadPointer(&f.policyCache))
}

func (f *fetcher) newRequest(url string, tp *taggedPolicy) (*http.Request, error) {
	req, err := http.NewRequest(http.MethodGet, url, nil)
	if err != nil {
		return nil, err
	}
	if tp != nil && tp.eTag != "" && fastime.Now().Before(tp.eTagExpiry) {
		req.Header.Set("If-None-Match", tp.eTag)
	}
	return req, nil
}

func (t *taggedPolicy) String() string {''')],
"req-ctx": [(F, '''http.NewRequest(http.MethodGet, url, nil)''', '''http.NewRequestWithContext(ctx, http.MethodGet, url, nil)'''), (F, '''f.client.Do(req.WithContext(ctx))''', '''f.client.Do(req)''')],
"url-concat": [(F, '''fmt.Sprintf("https://%s/domain/%s/signed_policy_data", f.athenzURL, f.domain)''', '''"https://" + f.athenzURL + "/domain/" + f.domain + "/signed_policy_data"''')],
"status-switch": [(F, '''	if res.StatusCode == http.StatusNotModified {
		if tp == nil {''', '''	switch res.StatusCode {
	case http.StatusNotModified:
		if tp == nil {'''), (F, '''		return tp.sp, nil
	}

	if res.StatusCode != http.StatusOK {
		errMsg''', '''		return tp.sp, nil
	case http.StatusOK:
	default:
		errMsg''')],
"decode-helper": [(F, '''	sp := new(SignedPolicy)
	if err = json.NewDecoder(res.Body).Decode(sp); err != nil {
''', '''	sp, err := decodePolicy(res.Body)
	if err != nil {
'''), (F, '''func (t *taggedPolicy) String() string {''', '''func decodePolicy(r io.Reader) (*SignedPolicy, error) {
	sp := &SignedPolicy{}
	if err := json.NewDecoder(r).Decode(sp); err != nil {
		return nil, err
	}
	return sp, nil
}

func (t *taggedPolicy) String() string {''')],
"decode-readall": [(F, '''	sp := new(SignedPolicy)
	if err = json.NewDecoder(res.Body).Decode(sp); err != nil {
''', '''	sp := new(SignedPolicy)
	body, err := ioutil.ReadAll(res.Body)
	if err == nil {
		err = json.Unmarshal(body, sp)
	}
	if err != nil {
''')],
"store-helper": [(F, '''	eTag := res.Header.Get("ETag")
	eTagExpiry := sp.SignedPolicyData.Expires.Time.Add(-f.expiryMargin)
	newTp := &taggedPolicy{
		eTag:       eTag,
		eTagExpiry: eTagExpiry,
		sp:         sp,
		ctime:      fastime.Now(),
	}
	glg.Debugf("set policy cache for domain: %s, policy: %s", f.domain, newTp)
	atomic.StorePointer(&f.policyCache, unsafe.Pointer(newTp))

	return sp, nil
''', '''	f.store(res.Header.Get("ETag"), sp)
	return sp, nil
'''), (F, '''func (t *taggedPolicy) String() string {''', '''func (f *fetcher) store(eTag string, sp *SignedPolicy) {
	tp := &taggedPolicy{eTag: eTag, sp: sp, ctime: fastime.Now()}
	tp.eTagExpiry = sp.SignedPolicyData.Expires.Time.Add(-1 * f.expiryMargin)
	atomic.StorePointer(&f.policyCache, unsafe.Pointer(tp))
}

func (t *taggedPolicy) String() string {''')],
"retry-loop": [(F, '''	for i := -1; i < f.retryAttempts; i++ {
		sp, err := f.Fetch(ctx)
		if err == nil {
			return sp, nil
		}

		lastErr = err
		time.Sleep(f.retryDelay)
	}
''', '''	for i := 0; i <= f.retryAttempts; i++ {
		var sp *SignedPolicy
		if sp, lastErr = f.Fetch(ctx); lastErr == nil {
			return sp, nil
		}
		time.Sleep(f.retryDelay)
	}
''')],
"verify-time": [(V, '''	if s.SignedPolicyData.Expires.Time.Sub(fastime.Now()) <= 0 {''', '''	if !s.SignedPolicyData.Expires.Time.After(fastime.Now()) {''')],
"verify-helper": [(V, '''	ver := pkp(pubkey.EnvZTS, s.KeyId)
	if ver == nil {
		return errors.New("zts key not found")
	}
	spd, err := json.Marshal(s.SignedPolicyData)
	if err != nil {
		return errors.New("error marshal signed policy data")
	}
	if err := ver.Verify((string)(spd), s.Signature); err != nil {
		//if err := ver.Verify(*(*string)(unsafe.Pointer(s.SignedPolicyData)), s.Signature); err != nil {
		return errors.Wrap(err, "error verify signature")
	}

	// verify policy data
	ver = pkp(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId)
	if ver == nil {
		return errors.New("zms key not found")
	}
	pd, err := json.Marshal(s.SignedPolicyData.PolicyData)
	if err != nil {
		return errors.New("error marshal policy data")
	}
	if err := ver.Verify((string)(pd), s.SignedPolicyData.ZmsSignature); err != nil {
		return errors.Wrap(err, "error verify zms signature")
	}
	return nil
''', '''	if err := verifySig(pkp(pubkey.EnvZTS, s.KeyId), s.SignedPolicyData, s.Signature, "zts"); err != nil {
		return err
	}
	return verifySig(pkp(pubkey.EnvZMS, s.SignedPolicyData.ZmsKeyId), s.SignedPolicyData.PolicyData, s.SignedPolicyData.ZmsSignature, "zms")
'''), (V, '''// Verify verifies''', '''func verifySig(ver authcore.Verifier, data interface{}, sig, what string) error {
	if ver == nil {
		return errors.New(what + " key not found")
	}
	b, err := json.Marshal(data)
	if err != nil {
		return errors.New("error marshal " + what + " data")
	}
	if err := ver.Verify(string(b), sig); err != nil {
		return errors.Wrap(err, "error verify "+what+" signature")
	}
	return nil
}

// Verify verifies'''), (V, '''	"github.com/AthenZ/athenz/utils/zpe''', '''	authcore "github.com/AthenZ/athenz/libs/go/zmssvctoken"
	"github.com/AthenZ/athenz/utils/zpe''')],
# daemon
"hook-method": [(D, '''		SetExpiredHook(func(ctx context.Context, key string) {
			// key = <domain>:role.<role>
			f, ok := p.fetchers[strings.Split(key, ":role.")[0]]
			if !ok {
				glg.Warnf("no fetcher to update the expired policy, key: %s", key)
				return
			}
			// cache apart first, to replace the policies of a role and not to merge into them
			tmp := gache.New()
			if err := fetchAndCachePolicy(ctx, tmp, f); err != nil {
				return
			}
			cur := p.currentRolePolicies()
			tmp.Foreach(ctx, func(role string, asss interface{}, exp int64) bool {
				if ttl := time.Unix(0, exp).Sub(fastime.Now()); ttl > 0 {
					cur.SetWithExpire(role, asss, ttl)
				}
				return true
			})
		})
''', '''		SetExpiredHook(p.refreshExpired)
'''), (D, '''// currentRolePolicies returns''', '''func (p *policyd) refreshExpired(ctx context.Context, key string) {
	// key = <domain>:role.<role>
	f, ok := p.fetchers[strings.SplitN(key, ":role.", 2)[0]]
	if !ok {
		glg.Warnf("no fetcher to update the expired policy, key: %s", key)
		return
	}
	// cache apart first, to replace the policies of a role and not to merge into them
	tmp := gache.New()
	if fetchAndCachePolicy(ctx, tmp, f) != nil {
		return
	}
	cur := p.currentRolePolicies()
	tmp.Foreach(ctx, func(role string, asss interface{}, exp int64) bool {
		ttl := time.Unix(0, exp).Sub(fastime.Now())
		if ttl <= 0 {
			return true
		}
		cur.SetWithExpire(role, asss, ttl)
		return true
	})
}

// currentRolePolicies returns''')],
"start-method": [(D, '''	go func() {
		defer close(fch)
		defer close(ech)

		ticker := time.NewTicker(p.refreshPeriod)
''', '''	go p.loop(ctx, ech, fch)

	return ech
}

func (p *policyd) loop(ctx context.Context, ech chan error, fch chan struct{}) {
		defer close(fch)
		defer close(ech)

		ticker := time.NewTicker(p.refreshPeriod)
'''), (D, '''			}
		}
	}()

	return ech
}

// Update updates''', '''			}
		}
}

// Update updates''')],
"start-defer-stop": [(D, '''		ticker := time.NewTicker(p.refreshPeriod)
''', '''		ticker := time.NewTicker(p.refreshPeriod)
		defer ticker.Stop()
'''), (D, '''				ticker.Stop()
				ech''', '''				ech''')],
"start-requeue": [(D, '''				if err := p.Update(ctx); err != nil {
					ech <- errors.Wrap(err, "error update policy")

					time.Sleep(p.retryDelay)

					select {
					case fch <- struct{}{}:
					default:
						glg.Warn("failure queue already full")
					}
				}
			case <-ticker.C:
				if err := p.Update(ctx); err != nil {
					ech <- errors.Wrap(err, "error update policy")

					select {
					case fch <- struct{}{}:
					default:
						glg.Warn("failure queue already full")
					}
				}
''', '''				update(func() { time.Sleep(p.retryDelay) })
			case <-ticker.C:
				update(func() {})
'''), (D, '''		ticker := time.NewTicker(p.refreshPeriod)
''', '''		update := func(wait func()) {
			err := p.Update(ctx)
			if err == nil {
				return
			}
			ech <- errors.Wrap(err, "error update policy")
			wait()
			select {
			case fch <- struct{}{}:
			default:
				glg.Warn("failure queue already full")
			}
		}
		ticker := time.NewTicker(p.refreshPeriod)
''')],
"new-fetcher-helper": [(D, '''		f := fetcher{
			domain:        domain,
			expiryMargin:  p.expiryMargin,
			retryDelay:    p.retryDelay,
			retryAttempts: p.retryAttempts,
			athenzURL:     p.athenzURL,
			spVerifier: func(sp *SignedPolicy) error {
				return sp.Verify(p.pkp)
			},
			client: p.client,
		}
		p.fetchers[domain] = &f
''', '''		p.fetchers[domain] = p.newFetcher(domain)
'''), (D, '''// Start starts''', '''func (p *policyd) newFetcher(domain string) *fetcher {
	return &fetcher{
		domain:        domain,
		expiryMargin:  p.expiryMargin,
		retryDelay:    p.retryDelay,
		retryAttempts: p.retryAttempts,
		athenzURL:     p.athenzURL,
		spVerifier:    p.verify,
		client:        p.client,
	}
}

func (p *policyd) verify(sp *SignedPolicy) error {
	return sp.Verify(p.pkp)
}

// Start starts''')],
"update-simple": [(D, '''		select {
		case <-ctx.Done():
			glg.Info("Update policy interrupted")
			return ctx.Err()
		default:
			eg.Go(func() error {
				select {
				case <-ctx.Done():
					glg.Info("Update policy interrupted")
					return ctx.Err()
				default:
					return fetchAndCachePolicy(ctx, rp, f)
				}
			})
		}
''', '''		if err := ctx.Err(); err != nil {
			glg.Info("Update policy interrupted")
			return err
		}
		eg.Go(func() error {
			if err := ctx.Err(); err != nil {
				glg.Info("Update policy interrupted")
				return err
			}
			return fetchAndCachePolicy(ctx, rp, f)
		})
''')],
"swap-helper": [(D, '''	curRpPtrPtr := (*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies))
	oldRpPtr := (*gache.Gache)(atomic.SwapPointer(curRpPtrPtr, unsafe.Pointer(&rp)))
''', '''	oldRpPtr := p.swap(&rp)
'''), (D, '''// currentRolePolicies returns''', '''func (p *policyd) swap(rp *gache.Gache) *gache.Gache {
	return (*gache.Gache)(atomic.SwapPointer((*unsafe.Pointer)(unsafe.Pointer(&p.rolePolicies)), unsafe.Pointer(rp)))
}

// currentRolePolicies returns''')],
"cache-inline": [(D, '''	if err := simplifyAndCachePolicy(ctx, g, sp); err != nil {
		errMsg := "simplify and cache policy fail"
		glg.Debugf("%s, error: %v", errMsg, err)
		return errors.Wrap(err, errMsg)
	}

	return nil
''', '''	return errors.Wrap(simplifyAndCachePolicy(ctx, g, sp), "simplify and cache policy fail")
''')],
"fetch-err-order": [(D, '''	if err != nil {
		errMsg := "fetch policy fail"
		glg.Errorf("%s, error: %v", errMsg, err)
		if sp == nil {
			return errors.Wrap(err, errMsg)
		}
	}
''', '''	if err != nil {
		glg.Errorf("fetch policy fail, error: %v", err)
	}
	if err != nil && sp == nil {
		return errors.Wrap(err, "fetch policy fail")
	}
''')],
}
