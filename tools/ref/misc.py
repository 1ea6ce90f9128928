T = "translator.go"; C = "client/exp_rt.go"; U = "internal/url/util.go"; M = "mask.go"; O = "option.go"; PR = "principal.go"
AO = "access/option.go"; JO = "jwk/option.go"; PO = "policy/option.go"; KO = "pubkey/option.go"
PATHS = '''			placeholderMap := make(map[string]string)
			for i, reqPath := range requestedPaths {
				if rule.splitPaths[i].isPlaceholder {
					placeholderMap[rule.splitPaths[i].name] = reqPath
				} else if reqPath != rule.splitPaths[i].name {
					continue OUTER
				}
			}
'''
QUERY = '''			for reqQuery, reqVal := range requestedQuery {
				// query multiple values is not allowed
				if len(reqVal) != 1 {
					continue OUTER
				}
				if v, ok := rule.queryValueMap[reqQuery]; ok {
					if v.isPlaceholder {
						placeholderMap[v.name] = reqVal[0]
					} else if reqVal[0] != v.name {
						continue OUTER
					}
				} else {
					continue OUTER
				}
			}
'''
VPATHS = '''			rules[i].splitPaths = make([]param, len(splitPaths))
			for j, path := range splitPaths {
				if ok, err := rules[i].isPlaceholder(path); ok {
					rules[i].splitPaths[j] = param{name: path, isPlaceholder: true}
				} else {
					if err != nil {
						return err
					}
					rules[i].splitPaths[j] = param{name: path, isPlaceholder: false}
				}
			}
'''
VQ = '''				if ok, err := rules[i].isPlaceholder(val[0]); ok {
					rules[i].queryValueMap[p] = param{name: val[0], isPlaceholder: true}
				} else {
					if err != nil {
						return err
					}
					rules[i].queryValueMap[p] = param{name: val[0], isPlaceholder: false}
				}
'''
LOOP = '''	for cnt := 0; cnt == 0 || cnt < p.maxRetryCount; cnt++ {
		if resp != nil {
			// this response is going to be replaced
			io.Copy(ioutil.Discard, resp.Body)
			resp.Body.Close()
		}
		resp, err = p.transport.RoundTrip(req)
		dur := p.calNextWaitDur(cnt)

		if err != nil {
			if !isTemporary(err) {
				return nil, err
			}

			if !canRetry(dur, timeLimit) {
				return nil, err
			}

			time.Sleep(dur)
			continue
		}

		if responseRetriable(resp) {
			continue
		}

		// response success
		return resp, nil
	}

	return resp, err
'''
R = {
"tr-equalfold": [(T, "if strings.ToLower(rule.Method) == strings.ToLower(method) {", "if strings.EqualFold(rule.Method, method) {")],
"tr-lower-once": [(T, "OUTER:\n	for _, rule", "	lm := strings.ToLower(method)\nOUTER:\n	for _, rule"), (T, "strings.ToLower(rule.Method) == strings.ToLower(method)", "strings.ToLower(rule.Method) == lm")],
"tr-guard": [(T, "		if strings.ToLower(rule.Method) == strings.ToLower(method) {\n			requestedPaths", "		if strings.ToLower(rule.Method) != strings.ToLower(method) {\n			continue\n		}\n		{\n			requestedPaths")],
"tr-hoist-split": [(T, "OUTER:\n	for _, rule", "	requestedPaths := strings.Split(path, \"/\")\nOUTER:\n	for _, rule"), (T, "			requestedPaths := strings.Split(path, \"/\")\n			if len", "			if len")],
"tr-match-helper": [(T, PATHS, '''			placeholderMap := make(map[string]string)
			if !matchPaths(rule.splitPaths, requestedPaths, placeholderMap) {
				continue
			}
'''), (T, "// Translate", "// Translate"), (T, "func replacePlaceholders(", '''func matchPaths(ps []param, reqs []string, out map[string]string) bool {
	for i, p := range ps {
		if p.isPlaceholder {
			out[p.name] = reqs[i]
			continue
		}
		if p.name != reqs[i] {
			return false
		}
	}
	return true
}

func replacePlaceholders(''')],
"tr-rule-method": [(T, PATHS+"\n"+QUERY, '''			placeholderMap, ok := rule.match(requestedPaths, requestedQuery)
			if !ok {
				continue
			}
'''), (T, "OUTER:\n	for _, rule", "	for _, rule"), (T, "func replacePlaceholders(", '''func (r *Rule) match(paths []string, query url.Values) (map[string]string, bool) {
	found := make(map[string]string)
	for i, s := range paths {
		p := r.splitPaths[i]
		switch {
		case p.isPlaceholder:
			found[p.name] = s
		case p.name != s:
			return nil, false
		}
	}
	for key, vals := range query {
		p, ok := r.queryValueMap[key]
		if !ok || len(vals) != 1 {
			return nil, false
		}
		if p.isPlaceholder {
			found[p.name] = vals[0]
			continue
		}
		if p.name != vals[0] {
			return nil, false
		}
	}
	return found, true
}

func replacePlaceholders(''')],
"tr-query-other-way": [(T, QUERY, '''			for name, v := range rule.queryValueMap {
				reqVal, ok := requestedQuery[name]
				if !ok || len(reqVal) != 1 {
					continue OUTER
				}
				if v.isPlaceholder {
					placeholderMap[v.name] = reqVal[0]
				} else if reqVal[0] != v.name {
					continue OUTER
				}
			}
''')],
"tr-query-first": [(T, PATHS+"\n"+QUERY, "			placeholderMap := make(map[string]string)\n"+QUERY+"\n"+PATHS.split("\n",1)[1])],
"tr-not-found-first": [(T, '''	if mr.Rules == nil {
		return method, path, nil
	}

OUTER:
	for _, rule := range mr.Rules[domain] {''', '''	rules, ok := mr.Rules[domain]
	if !ok {
		return method, path, nil
	}

OUTER:
	for _, rule := range rules {''')],
"tr-index-loop": [(T, "	for _, rule := range mr.Rules[domain] {\n		if strings.ToLower", "	for rules, k := mr.Rules[domain], 0; k < len(rules); k++ {\n		rule := rules[k]\n		if strings.ToLower")],# := 0; k < len(rules); k++ {\n		rule := rules[k]\n		if strings.ToLower")],
"tr-pointer": [(T, "	for _, rule := range mr.Rules[domain] {\n		if strings.ToLower", "	for i := range mr.Rules[domain] {\n		rule := &mr.Rules[domain][i]\n		if strings.ToLower")],
"val-paths-append": [(T, VPATHS, '''			ps := make([]param, 0, len(splitPaths))
			for _, path := range splitPaths {
				rules[i].splitPaths = ps
				ok, err := rules[i].isPlaceholder(path)
				if err != nil {
					return err
				}
				ps = append(ps, param{name: path, isPlaceholder: ok})
			}
			rules[i].splitPaths = ps
''')],
"val-paths-err-first": [(T, VPATHS, '''			rules[i].splitPaths = make([]param, len(splitPaths))
			for j, path := range splitPaths {
				ok, err := rules[i].isPlaceholder(path)
				if err != nil {
					return err
				}
				rules[i].splitPaths[j] = param{name: path, isPlaceholder: ok}
			}
'''), (T, VQ, '''				ok, err := rules[i].isPlaceholder(val[0])
				if err != nil {
					return err
				}
				rules[i].queryValueMap[p] = param{name: val[0], isPlaceholder: ok}
''')],
"val-rule-pointer": [(T, "		for i, rule := range rules {\n			if rule.Method", "		for i := range rules {\n			rule := &rules[i]\n			if rule.Method")],
"val-rule-method": [(T, "		for i, rule := range rules {\n			if rule.Method == \"\" || rule.Action == \"\" || rule.Resource == \"\" {\n				return fmt.Errorf(\"rule is empty, method:%s, action:%s, resource:%s\",\n					rule.Method, rule.Action, rule.Resource)\n			}\n			if rule.Path != \"\" && !strings.HasPrefix(rule.Path, \"/\") {\n				return fmt.Errorf(\"path(%s) doesn't start with slash\", rule.Path)\n			}\n",
 "		for i, rule := range rules {\n			if err := rules[i].check(); err != nil {\n				return err\n			}\n"), (T, "func replacePlaceholders(", '''func (r *Rule) check() error {
	if r.Method == "" || r.Action == "" || r.Resource == "" {
		return fmt.Errorf("rule is empty, method:%s, action:%s, resource:%s", r.Method, r.Action, r.Resource)
	}
	if r.Path == "" || strings.HasPrefix(r.Path, "/") {
		return nil
	}
	return fmt.Errorf("path(%s) doesn't start with slash", r.Path)
}

func replacePlaceholders(''')],
"val-cut": [(T, '''			pathQuery := strings.SplitN(rule.Path, "?", 2)

			splitPaths := strings.Split(pathQuery[0], "/")''', '''			pathOnly, rawQuery, hasQuery := strings.Cut(rule.Path, "?")

			splitPaths := strings.Split(pathOnly, "/")'''), (T, "			if len(pathQuery) == 1 {", "			if !hasQuery {"), (T, "url.ParseQuery(pathQuery[1])", "url.ParseQuery(rawQuery)")],
"ph-len": [(T, '''	if s == placeholderPrefix+placeholderSuffix {
		return false, errors.New("placeholder is empty")
	}

	if strings.HasPrefix(s, placeholderPrefix) && strings.HasSuffix(s, placeholderSuffix) {
		if''', '''	if s == "{}" {
		return false, errors.New("placeholder is empty")
	}
	if !strings.HasPrefix(s, placeholderPrefix) || !strings.HasSuffix(s, placeholderSuffix) {
		return false, nil
	}
	{
		if'''), (T, '''		return true, nil
	}
	return false, nil
}''', '''		return true, nil
	}
}''')],
"ph-nonil": [(T, '''		if r.splitPaths != nil {
			for _, p := range r.splitPaths {
				if p.isPlaceholder && p.name == s {
					return false, fmt.Errorf("placeholder(%s) is duplicated", s)
				}
			}
		}
		if r.queryValueMap != nil {
			for _, p := range r.queryValueMap {
				if p.isPlaceholder && p.name == s {
					return false, fmt.Errorf("placeholder(%s) is duplicated", s)
				}
			}
		}
''', '''		dup := func(p param) bool { return p.isPlaceholder && p.name == s }
		for _, p := range r.splitPaths {
			if dup(p) {
				return false, fmt.Errorf("placeholder(%s) is duplicated", s)
			}
		}
		for _, p := range r.queryValueMap {
			if dup(p) {
				return false, fmt.Errorf("placeholder(%s) is duplicated", s)
			}
		}
''')],
"rep-keys": [(T, "	placeholders := make([]string, 0, len(placeholderMap))\n	for placeholder := range placeholderMap {\n		placeholders = append(placeholders, placeholder)\n	}\n	sort.Strings(placeholders) // the result must not depend on the order of the map\n", "	var placeholders []string\n	for p := range placeholderMap {\n		placeholders = append(placeholders, p)\n	}\n	sort.Slice(placeholders, func(i, j int) bool { return placeholders[i] < placeholders[j] })\n")],
"rt-range": [(C, LOOP, '''	max := p.maxRetryCount
	if max < 1 {
		max = 1
	}
	for cnt := 0; cnt < max; cnt++ {
		if resp != nil {
			io.Copy(ioutil.Discard, resp.Body)
			resp.Body.Close()
		}
		resp, err = p.transport.RoundTrip(req)
		if err == nil {
			if responseRetriable(resp) {
				continue
			}
			return resp, nil
		}
		dur := p.calNextWaitDur(cnt)
		if !isTemporary(err) || !canRetry(dur, timeLimit) {
			return nil, err
		}
		time.Sleep(dur)
	}
	return resp, err
''')],
"rt-drain-helper": [(C, '''			io.Copy(ioutil.Discard, resp.Body)
			resp.Body.Close()
''', '''			discard(resp)
'''), (C, "func canRetry", '''func discard(r *http.Response) {
	defer r.Body.Close()
	io.Copy(ioutil.Discard, r.Body)
}

func canRetry''')],
"rt-drain-later": [(C, '''		if resp != nil {
			// this response is going to be replaced
			io.Copy(ioutil.Discard, resp.Body)
			resp.Body.Close()
		}
''', ""), (C, '''		if responseRetriable(resp) {
			continue
		}
''', '''		if responseRetriable(resp) {
			if cnt+1 < p.maxRetryCount {
				io.Copy(ioutil.Discard, resp.Body)
				resp.Body.Close()
			}
			continue
		}
''')],
"rt-switch": [(C, '''	_, ok := retryableStatuses[r.StatusCode]
	return ok
''', '''	switch r.StatusCode {
	case http.StatusTooManyRequests, http.StatusInternalServerError, http.StatusServiceUnavailable, http.StatusGatewayTimeout:
		return true
	}
	return false
'''), (C, '''var retryableStatuses = map[int]struct{}{
	http.StatusTooManyRequests:     {},
	http.StatusInternalServerError: {},
	http.StatusServiceUnavailable:  {},
	http.StatusGatewayTimeout:      {},
}
''', "")],
"rt-timer": [(C, "			time.Sleep(dur)\n			continue", "			t := time.NewTimer(dur)\n			<-t.C\n			continue")],
"rt-limit-time": [(C, "	timeLimit := fastime.Now().Add(p.maxRetryTime).UnixNano()", "	timeLimit := fastime.UnixNanoNow() + int64(p.maxRetryTime)")],
"url-strings": [(U, '''	httpOnce.Do(func() {
		httpReg = regexp.MustCompile("^(http|https)://")
	})

	return httpReg.ReplaceAllString(url, "")''', '''	for _, p := range []string{"http://", "https://"} {
		if strings.HasPrefix(url, p) {
			return url[len(p):]
		}
	}
	return url'''), (U, '	"sync"\n', '	"strings"\n	"sync"\n'), (U, "	httpReg    *regexp.Regexp\n", ""), (U, "	httpOnce   = sync.Once{}\n", "")],
"url-var": [(U, '''	httpOnce.Do(func() {
		httpReg = regexp.MustCompile("^(http|https)://")
	})

''', ""), (U, "	httpReg    *regexp.Regexp\n", '	httpReg    = regexp.MustCompile("^https?://")\n'), (U, "	httpOnce   = sync.Once{}\n", "")],
"mask-lastidx": [(M, '''		i := strings.Index(tok, ";s=")
		if i > 0 {
			return tok[:i]
		}
		return "mask token error: invalid role token"''', '''		if i := strings.Index(tok, ";s="); i > 0 {
			return tok[:i]
		} else {
			return "mask token error: invalid role token"
		}''')],
"mask-if": [(M, '''	switch m {
	case roleToken:
		i := strings.Index(tok, ";s=")
		if i > 0 {
			return tok[:i]
		}
		return "mask token error: invalid role token"
	case accessToken:
		i := strings.LastIndex(tok, ".")
		if i > 0 {
			return tok[:i]
		}
		return "mask token error: invalid access token"
	default:
		return "mask token error: unknown token"
	}''', '''	if m == roleToken {
		if un, _, ok := strings.Cut(tok, ";s="); ok && un != "" {
			return un
		}
		return "mask token error: invalid role token"
	}
	if m != accessToken {
		return "mask token error: unknown token"
	}
	i := strings.LastIndexByte(tok, '.')
	if i <= 0 {
		return "mask token error: invalid access token"
	}
	return tok[:i]''')],
"mask-trimprefix": [(M, "	return key[len(tok):]", "	return strings.TrimPrefix(key, tok)")],
"opt-httpclient": [(O, '''		if c == nil {
			authz.client = &http.Client{
				Timeout: defaultHTTPClientTimeout * time.Second,
			}
			return nil
		}
		authz.client = c
		return nil''', '''		if c == nil {
			c = &http.Client{Timeout: defaultHTTPClientTimeout * time.Second}
		}
		authz.client = c
		return nil''')],
"opt-trim-helper": [(O, '''		u := urlutil.TrimHTTPScheme(url)
		if urlutil.HasScheme(u) {
			return urlutil.ErrUnsupportedScheme
		}
		authz.athenzURL = u
		return nil''', '''		u, err := bareURL(url)
		if err == nil {
			authz.athenzURL = u
		}
		return err'''), (O, "// Option represents", '''func bareURL(s string) (string, error) {
	if u := urlutil.TrimHTTPScheme(s); !urlutil.HasScheme(u) {
		return u, nil
	}
	return "", urlutil.ErrUnsupportedScheme
}

// Option represents''')],
"opt-period-helper": [(PO, '''		rp, err := time.ParseDuration(d)
		if err != nil {
			return errors.Wrap(err, "invalid refresh period")
		}
		if rp <= 0 {
			return errors.Errorf("invalid refresh period, %s is not positive", rp)
		}
		pol.refreshPeriod = rp
		return nil
''', '''		rp, err := positive(d, "refresh period")
		if err != nil {
			return err
		}
		pol.refreshPeriod = rp
		return nil
'''), (PO, '''		pp, err := time.ParseDuration(d)
		if err != nil {
			return errors.Wrap(err, "invalid purge period")
		}
		if pp <= 0 {
			return errors.Errorf("invalid purge period, %s is not positive", pp)
		}
		pol.purgePeriod = pp
		return nil
''', '''		var err error
		pol.purgePeriod, err = positive(d, "purge period")
		return err
'''), (PO, "// WithRetryDelay", '''func positive(d, what string) (time.Duration, error) {
	p, err := time.ParseDuration(d)
	switch {
	case err != nil:
		return 0, errors.Wrap(err, "invalid "+what)
	case p <= 0:
		return 0, errors.Errorf("invalid %s, %s is not positive", what, p)
	}
	return p, nil
}

// WithRetryDelay''')],
"opt-secs-div": [(AO, "r.clientCertificateGoBackSeconds = int64(rd.Seconds())", "r.clientCertificateGoBackSeconds = int64(rd / time.Second)")],
"opt-access-nonempty": [(AO, '''		if t == "" {
			return nil
		}
		rd, err := time.ParseDuration(t)
		if err != nil {
			return errors.Wrap(err, "invalid offset duration")
		}
		r.clientCertificateOffsetSeconds = int64(rd.Seconds())
		return nil''', '''		if t != "" {
			rd, err := time.ParseDuration(t)
			if err != nil {
				return errors.Wrap(err, "invalid offset duration")
			}
			r.clientCertificateOffsetSeconds = int64(rd.Seconds())
		}
		return nil''')],
"opt-jwk-url-concat": [(JO, '''		j.athenzJwksURL = fmt.Sprintf("https://%s/oauth2/keys?rfc=true", u)''', '''		j.athenzJwksURL = "https://" + u + "/oauth2/keys?rfc=true"'''), (JO, '	"fmt"\n', "")],
"opt-jwk-urls-copy": [(JO, "		for _, targetURL := range urls {", "		checked := make([]string, 0, len(urls))\n		for _, targetURL := range urls {"), (JO, "				return urlutil.ErrUnsupportedScheme\n			}\n		}\n		j.urls = urls\n", "				return urlutil.ErrUnsupportedScheme\n			}\n			checked = append(checked, targetURL)\n		}\n		j.urls = checked\n")],
"opt-jwk-switch": [(JO, '''			if u.Scheme != "http" && u.Scheme != "https" {
				return urlutil.ErrUnsupportedScheme
			}''', '''			switch u.Scheme {
			case "http", "https":
			default:
				return urlutil.ErrUnsupportedScheme
			}''')],
"opt-doms-nonnil": [(PO, '''		if doms == nil {
			return nil
		}
		pol.athenzDomains = doms
		return nil''', '''		if doms != nil {
			pol.athenzDomains = doms
		}
		return nil''')],
"opt-flag-helper": [(O, '''func WithEnableJwkd() Option {
	return func(authz *authority) error {
		authz.disableJwkd = false
		return nil
	}
}''', '''func WithEnableJwkd() Option {
	return jwkdDisabled(false)
}

func jwkdDisabled(b bool) Option {
	return func(authz *authority) error {
		authz.disableJwkd = b
		return nil
	}
}''')],
}
