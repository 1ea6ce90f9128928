P = "pubkey/daemon.go"; J = "jwk/daemon.go"
GO = '''	eg.Go(func() error {
		glg.Info("Updating ZTS athenz pubkey")
		if err := updConf(EnvZTS, p.confCache.ZTSPubKeys); err != nil {
			return errors.Wrap(err, "Error updating ZTS athenz pubkey")
		}
		glg.Info("Update ZTS athenz pubkey success")
		return nil
	})

	eg.Go(func() error {
		glg.Info("Updating ZMS athenz pubkey")
		if err := updConf(EnvZMS, p.confCache.ZMSPubKeys); err != nil {
			return errors.Wrap(err, "Error updating ZMS athenz pubkey")
		}
		glg.Info("Update ZMS athenz pubkey success")
		return nil
	})
'''
DEC = '''			decKey, err := dec.DecodeString(key.Key)
			if err != nil {
				glg.Errorf("error decoding key, env: %v, error: %v", env, err)
				return errors.Wrap(err, "error decoding key")
			}
			ver, err := authcore.NewVerifier(decKey)
			if err != nil {
				glg.Errorf("error initializing verifier, env: %v, error: %v", env, err)
				return errors.Wrap(err, "error initializing verifier")
			}
			cm.Store(key.ID, ver)
'''
REQ = '''	req, err := http.NewRequest(http.MethodGet, url, nil)
	if err != nil {
		glg.Errorf("Fetch public key entries error: %v", err)
		return nil, false, errors.Wrap(err, "error creating get pubkey request")
	}
'''
R = {
"go-table": [(P, GO, '''	for env, cache := range map[AthenzEnv]*sync.Map{EnvZTS: p.confCache.ZTSPubKeys, EnvZMS: p.confCache.ZMSPubKeys} {
		env, cache := env, cache
		eg.Go(func() error {
			if err := updConf(env, cache); err != nil {
				return errors.Wrap(err, fmt.Sprintf("Error updating %s athenz pubkey", env))
			}
			return nil
		})
	}
''')],
"go-slice": [(P, GO, '''	type target struct {
		env   AthenzEnv
		cache *sync.Map
	}
	for _, t := range []target{{EnvZTS, p.confCache.ZTSPubKeys}, {EnvZMS, p.confCache.ZMSPubKeys}} {
		t := t
		eg.Go(func() error {
			return errors.Wrap(updConf(t.env, t.cache), "Error updating athenz pubkey")
		})
	}
''')],
"go-order": [(P, GO, "\n".join(reversed(GO.split("\n\n"))).strip("\n") + "\n")],
"go-wrap": [(P, '''		if err := updConf(EnvZTS, p.confCache.ZTSPubKeys); err != nil {
			return errors.Wrap(err, "Error updating ZTS athenz pubkey")
		}
		glg.Info("Update ZTS athenz pubkey success")
		return nil
''', '''		err := updConf(EnvZTS, p.confCache.ZTSPubKeys)
		if err == nil {
			glg.Info("Update ZTS athenz pubkey success")
		}
		return errors.Wrap(err, "Error updating ZTS athenz pubkey")
''')],
"upd-method": [(P, '''	// this function decode and create verifier obj and store to corresponding cache map
	updConf := func(env AthenzEnv, cache *sync.Map) (err error) {''', '''@@'''), (P, GO, GO.replace("updConf(", "p.updateEnv(ctx, "))],
"dec-helper": [(P, DEC, '''			ver, err := newVerifier(dec, key.Key)
			if err != nil {
				glg.Errorf("env: %v, error: %v", env, err)
				return err
			}
			cm.Store(key.ID, ver)
'''), (P, '''// GetProvider returns''', '''func newVerifier(dec *authcore.YBase64, key string) (authcore.Verifier, error) {
	b, err := dec.DecodeString(key)
	if err != nil {
		return nil, errors.Wrap(err, "error decoding key")
	}
	ver, err := authcore.NewVerifier(b)
	return ver, errors.Wrap(err, "error initializing verifier")
}

// GetProvider returns''')],
"decode-all-helper": [(P, '''		for _, key := range pubKeys.PublicKeys {
			if key == nil {
				return errors.Wrap(ErrFetchAthenzPubkey, "empty public key entry")
			}
			glg.Debugf("Decoding key, env: %v, keyID: %v", env, key.ID)
''' + DEC + '''			glg.Debugf("Successfully decode key, env: %v, keyID: %v", env, key.ID)
		}
''', '''		if err := decodeKeys(cm, dec, pubKeys.PublicKeys); err != nil {
			return err
		}
'''), (P, '''// GetProvider returns''', '''func decodeKeys(cm *sync.Map, dec *authcore.YBase64, keys []*PublicKey) error {
	for i := range keys {
		key := keys[i]
		if key == nil {
			return errors.Wrap(ErrFetchAthenzPubkey, "empty public key entry")
		}
		b, err := dec.DecodeString(key.Key)
		if err != nil {
			return errors.Wrap(err, "error decoding key")
		}
		ver, err := authcore.NewVerifier(b)
		if err != nil {
			return errors.Wrap(err, "error initializing verifier")
		}
		cm.Store(key.ID, ver)
	}
	return nil
}

// GetProvider returns''')],
"plain-staging": [(P, '''		cm := new(sync.Map)
''', '''		cm := make(map[string]authcore.Verifier)
'''), (P, '''cm.Store(key.ID, ver)''', '''cm[key.ID] = ver'''), (P, '''		cm.Range(func(key interface{}, val interface{}) bool {
			cache.Store(key, val)
			return true
		})
''', '''		for id, ver := range cm {
			cache.Store(id, ver)
		}
'''), (P, '''			_, ok := cm.Load(key)
			if !ok {''', '''			if _, ok := cm[key.(string)]; !ok {''')],
"replace-helper": [(P, '''		cm.Range(func(key interface{}, val interface{}) bool {
			cache.Store(key, val)
			return true
		})
		cache.Range(func(key interface{}, val interface{}) bool {
			_, ok := cm.Load(key)
			if !ok {
				cache.Delete(key)
			}
			return true
		})
''', '''		replaceAll(cache, cm)
'''), (P, '''// GetProvider returns''', '''func replaceAll(dst, src *sync.Map) {
	src.Range(func(key, val interface{}) bool {
		dst.Store(key, val)
		return true
	})
	dst.Range(func(key, _ interface{}) bool {
		if _, ok := src.Load(key); !ok {
			dst.Delete(key)
		}
		return true
	})
}

// GetProvider returns''')],
"del-continue": [(P, '''			_, ok := cm.Load(key)
			if !ok {
				cache.Delete(key)
			}
			return true
''', '''			if _, ok := cm.Load(key); ok {
				return true
			}
			cache.Delete(key)
			return true
''')],
"pub-req-ctx": [(P, "http.NewRequest(http.MethodGet, url, nil)", "http.NewRequestWithContext(ctx, http.MethodGet, url, nil)"), (P, "req.WithContext(ctx)", "req")],
"pub-etag-helper": [(P, '''	t, ok := p.eTagCache.Get(string(env))
	if ok {
		eTag := t.(*confCache).eTag
		glg.Debugf("ETag %v found in the cache", eTag)
		req.Header.Set("If-None-Match", eTag)
	}
''', '''	cached := p.cachedConf(env)
	if cached != nil {
		req.Header.Set("If-None-Match", cached.eTag)
	}
'''), (P, '''		if !ok {
			glg.Error("Server return not modified, but ETag not found in the cache")''', '''		if cached == nil {
			glg.Error("Server return not modified, but ETag not found in the cache")'''), (P, '''		cache := t.(*confCache)
		glg.Debugf("Server return not modified, ETag: %s", cache.eTag)
		return cache.sac, false, nil''', '''		return cached.sac, false, nil'''), (P, '''// GetProvider returns''', '''func (p *pubkeyd) cachedConf(env AthenzEnv) *confCache {
	t, ok := p.eTagCache.Get(string(env))
	if !ok {
		return nil
	}
	return t.(*confCache)
}

// GetProvider returns''')],
"pub-status-switch": [(P, '''	if r.StatusCode == http.StatusNotModified {
		if !ok {''', '''	switch r.StatusCode {
	case http.StatusOK:
	case http.StatusNotModified:
		if !ok {'''), (P, '''		return cache.sac, false, nil
	}

	// if server return any error
	if r.StatusCode != http.StatusOK {
''', '''		return cache.sac, false, nil
	default:
''')],
"pub-setetag-early": [(P, '''	eTag := r.Header.Get("ETag")
	if eTag != "" {
		glg.Debugf("Setting ETag %v", eTag)
		p.eTagCache.SetWithExpire(string(env), &confCache{eTag, sac}, p.eTagExpiry)
	} else {
		// the remembered ETag is the one of other keys
		p.eTagCache.Delete(string(env))
	}
''', '''	eTag := r.Header.Get("ETag")
	if eTag == "" {
		p.eTagCache.Delete(string(env))
		return sac, true, nil
	}
	p.eTagCache.SetWithExpire(string(env), &confCache{eTag: eTag, sac: sac}, p.eTagExpiry)
''')],
"pub-setetag-first": [(P, '''	eTag := r.Header.Get("ETag")
	if eTag != "" {
		glg.Debugf("Setting ETag %v", eTag)
		p.eTagCache.SetWithExpire(string(env), &confCache{eTag, sac}, p.eTagExpiry)
	} else {
		// the remembered ETag is the one of other keys
		p.eTagCache.Delete(string(env))
	}
''', '''	p.eTagCache.Delete(string(env))
	if eTag := r.Header.Get("ETag"); eTag != "" {
		p.eTagCache.SetWithExpire(string(env), &confCache{eTag: eTag, sac: sac}, p.eTagExpiry)
	}
''')],
"get-switch": [(P, '''	if env == EnvZTS {
		ver, ok := p.confCache.ZTSPubKeys.Load(keyID)
		if !ok {
			glg.Warnf("ZTS PubKey Load Failed keyID[%s]  getZTSPubKey %v", keyID, ver)
			return nil
		}
		return ver.(authcore.Verifier)
	}

	ver, ok := p.confCache.ZMSPubKeys.Load(keyID)
	if !ok {
		glg.Warnf("ZMS PubKey Load Failed keyID[%s]  getZMSPubKey %v", keyID, ver)
		return nil
	}
	return ver.(authcore.Verifier)
''', '''	keys := p.confCache.ZMSPubKeys
	switch env {
	case EnvZTS:
		keys = p.confCache.ZTSPubKeys
	}
	if ver, ok := keys.Load(keyID); ok {
		return ver.(authcore.Verifier)
	}
	glg.Warnf("%s PubKey Load Failed keyID[%s]", env, keyID)
	return nil
''')],
"get-commaok": [(P, '''	ver, ok := p.confCache.ZMSPubKeys.Load(keyID)
	if !ok {
		glg.Warnf("ZMS PubKey Load Failed keyID[%s]  getZMSPubKey %v", keyID, ver)
		return nil
	}
	return ver.(authcore.Verifier)
''', '''	v, ok := p.confCache.ZMSPubKeys.Load(keyID)
	if !ok {
		return nil
	}
	ver, ok := v.(authcore.Verifier)
	if !ok {
		return nil
	}
	return ver
''')],
"provider-closure": [(P, '''	return p.getPubKey
''', '''	return func(env AthenzEnv, keyID string) authcore.Verifier {
		return p.getPubKey(env, keyID)
	}
'''), (J, '''	return j.getKey
''', '''	return func(keyID, jwkSetURL string) interface{} {
		return j.getKey(keyID, jwkSetURL)
	}
''')],
"close-helper": [(P, '''	defer func() {
		if _, err := io.Copy(ioutil.Discard, r.Body); err != nil {
			glg.Warn(errors.Wrap(err, "error io.copy"))
		}
		if err := r.Body.Close(); err != nil {
			glg.Warn(errors.Wrap(err, "error body.close"))
		}
	}()
''', '''	defer drain(r.Body)
'''), (P, '''// GetProvider returns''', '''func drain(rc io.ReadCloser) {
	if _, err := io.Copy(ioutil.Discard, rc); err != nil {
		glg.Warn(errors.Wrap(err, "error io.copy"))
	}
	if err := rc.Close(); err != nil {
		glg.Warn(errors.Wrap(err, "error body.close"))
	}
}

// GetProvider returns''')],
"pub-loop-helper": [(P, '''				if err := p.Update(ctx); err != nil {
					ech <- errors.Wrap(err, "error update pubkey")

					time.Sleep(p.retryDelay)

					select {
					case fch <- struct{}{}:
					default:
						glg.Warn("failure queue already full")
					}
				}
''', '''				p.tryUpdate(ctx, ech, fch, p.retryDelay)
'''), (P, '''				if err := p.Update(ctx); err != nil {
					ech <- errors.Wrap(err, "error update pubkey")

					select {
					case fch <- struct{}{}:
					default:
						glg.Warn("failure queue already full")
					}
				}
''', '''				p.tryUpdate(ctx, ech, fch, 0)
'''), (P, '''// GetProvider returns''', '''func (p *pubkeyd) tryUpdate(ctx context.Context, ech chan<- error, fch chan<- struct{}, wait time.Duration) {
	err := p.Update(ctx)
	if err == nil {
		return
	}
	ech <- errors.Wrap(err, "error update pubkey")
	if wait > 0 {
		time.Sleep(wait)
	}
	select {
	case fch <- struct{}{}:
	default:
		glg.Warn("failure queue already full")
	}
}

// GetProvider returns''')],
"etag-drop-explicit": [(P, '''		defer func() {
			if err != nil {
				// the received keys are not in use, do not ask for the changes from them
				p.eTagCache.Delete(string(env))
			}
		}()

''', ''), (P, '''				return errors.Wrap(ErrFetchAthenzPubkey, "empty public key entry")''', '''				p.eTagCache.Delete(string(env))
				return errors.Wrap(ErrFetchAthenzPubkey, "empty public key entry")'''), (P, '''				return errors.Wrap(err, "error decoding key")''', '''				p.eTagCache.Delete(string(env))
				return errors.Wrap(err, "error decoding key")'''), (P, '''				return errors.Wrap(err, "error initializing verifier")''', '''				p.eTagCache.Delete(string(env))
				return errors.Wrap(err, "error initializing verifier")''')],
# jwk
"jwk-targets-helper": [(J, '''	var targets []string
	if !isContain(j.urls, j.athenzJwksURL) {
		targets = append([]string{j.athenzJwksURL}, j.urls...)
	} else {
		targets = j.urls
	}

	var failedTargets []string
	for _, target := range targets {''', '''	var failedTargets []string
	for _, target := range j.targets() {'''), (J, '''func (j *jwkd) GetProvider''', '''func (j *jwkd) targets() []string {
	if isContain(j.urls, j.athenzJwksURL) {
		return j.urls
	}
	return append([]string{j.athenzJwksURL}, j.urls...)
}

func (j *jwkd) GetProvider''')],
"jwk-fetch-helper": [(J, '''		keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(j.client))
		if err != nil {
			glg.Errorf("Fetch JWK Set error: %v", err)
			failedTargets = append(failedTargets, target)
			continue
		}
		j.keys.Store(target, keys)
		glg.Debugf("Fetch JWK Set from %s success", target)
''', '''		if err := j.load(ctx, target); err != nil {
			glg.Errorf("Fetch JWK Set error: %v", err)
			failedTargets = append(failedTargets, target)
		}
'''), (J, '''func (j *jwkd) GetProvider''', '''func (j *jwkd) load(ctx context.Context, target string) error {
	keys, err := jwk.Fetch(ctx, target, jwk.WithHTTPClient(j.client))
	if err != nil {
		return err
	}
	j.keys.Store(target, keys)
	return nil
}

func (j *jwkd) GetProvider''')],
"jwk-else": [(J, '''			failedTargets = append(failedTargets, target)
			continue
		}
		j.keys.Store(target, keys)
		glg.Debugf("Fetch JWK Set from %s success", target)
''', '''			failedTargets = append(failedTargets, target)
		} else {
			j.keys.Store(target, keys)
			glg.Debugf("Fetch JWK Set from %s success", target)
		}
''')],
"jwk-index": [(J, '''	for _, target := range targets {
		glg.Debugf("Fetching''', '''	for i := 0; i < len(targets); i++ {
		target := targets[i]
		glg.Debugf("Fetching''')],
"jwk-len0": [(J, '''	if len(failedTargets) > 0 {
		return errors.Errorf("Failed to fetch the JWK Set from these URLs: %s", failedTargets)
	}

	glg.Info("Fetch JWK Set success")
	return nil
''', '''	if len(failedTargets) == 0 {
		glg.Info("Fetch JWK Set success")
		return nil
	}
	return errors.Errorf("Failed to fetch the JWK Set from these URLs: %s", failedTargets)
''')],
"jwk-url-var": [(J, '''	var keys interface{}
	var ok bool
	if jwkSetURL == "" {
		keys, ok = j.keys.Load(j.athenzJwksURL)
	} else {
		keys, ok = j.keys.Load(jwkSetURL)
	}

	// Either jku specified in the token is not set in jwkd.urls or key cache is failing.
	if !ok {
		return nil
	}
''', '''	url := jwkSetURL
	if url == "" {
		url = j.athenzJwksURL
	}
	keys, ok := j.keys.Load(url)
	if !ok {
		return nil
	}
''')],
"jwk-early": [(J, '''	if found {
		var raw interface{}
		if err := key.Raw(&raw); err != nil {
			glg.Warnf("jwkd.getKey: %s", err.Error())
		} else {
			return raw
		}
	}

	// Either key for the kid specified in the token was not found or invalid key
	return nil
''', '''	if !found {
		return nil
	}
	var raw interface{}
	if err := key.Raw(&raw); err != nil {
		glg.Warnf("jwkd.getKey: %s", err.Error())
		return nil
	}
	return raw
''')],
"jwk-raw-helper": [(J, '''	if found {
		var raw interface{}
		if err := key.Raw(&raw); err != nil {
			glg.Warnf("jwkd.getKey: %s", err.Error())
		} else {
			return raw
		}
	}

	// Either key for the kid specified in the token was not found or invalid key
	return nil
''', '''	if !found {
		return nil
	}
	return rawOf(key)
'''), (J, '''func (j *jwkd) GetProvider''', '''func rawOf(key jwk.Key) interface{} {
	var raw interface{}
	err := key.Raw(&raw)
	if err == nil {
		return raw
	}
	glg.Warnf("jwkd.getKey: %s", err.Error())
	return nil
}

func (j *jwkd) GetProvider''')],
"jwk-set-commaok": [(J, '''	key, found := keys.(jwk.Set).LookupKeyID(keyID)
''', '''	set, isSet := keys.(jwk.Set)
	if !isSet {
		return nil
	}
	key, found := set.LookupKeyID(keyID)
''')],
"jwk-contain-inline": [(J, '''	if !isContain(j.urls, j.athenzJwksURL) {
		targets = append([]string{j.athenzJwksURL}, j.urls...)
	} else {
		targets = j.urls
	}
''', '''	own := false
	for _, u := range j.urls {
		if u == j.athenzJwksURL {
			own = true
			break
		}
	}
	targets = j.urls
	if !own {
		targets = append([]string{j.athenzJwksURL}, j.urls...)
	}
''')],
"jwk-start-method": [(J, '''		update := func() {
			if err := j.Update(ctx); err != nil {
				err = errors.Wrap(err, "error update athenz json web key")
				time.Sleep(j.retryDelay)
''', '''		update := func() {
			err := j.Update(ctx)
			if err == nil {
				return
			}
			{
				err = errors.Wrap(err, "error update athenz json web key")
				time.Sleep(j.retryDelay)
''')],
"jwk-loop-merge": [(J, '''			case <-fch:
				update()
			case <-ticker.C:
				update()
			}
''', '''			case <-fch:
			case <-ticker.C:
			}
			update()
''')],
"jwk-strings": [(J, '''		ebuf := errors.New("")
''', '''		defer ticker.Stop()
		ebuf := errors.New("")
'''), (J, '''				ticker.Stop()
				if''', '''				if''')],
}
# the closure of Update as a method
import re
src = open("/repo/" + P).read()
a = src.index("	// this function decode and create"); b = src.index("	eg.Go(func() error {\n		glg.Info(\"Updating ZTS")
body = src[a:b]
meth = body.replace("	// this function decode and create verifier obj and store to corresponding cache map\n	updConf := func(env AthenzEnv, cache *sync.Map) (err error) {", "func (p *pubkeyd) updateEnv(ctx context.Context, env AthenzEnv, cache *sync.Map) (err error) {")
R["upd-method"] = [(P, body, ""), (P, GO, GO.replace("updConf(", "p.updateEnv(ctx, ")), (P, "// GetProvider returns", meth.rstrip() + "\n\n// GetProvider returns")]
