package main

import (
	"encoding/json"
	"net/url"
	"reflect"
	"strings"
	"time"
)

// The relying party: authorization requests and code exchanges.

const evil = "https://evil.example.org"

func (op *Op) str(k string) string { s, _ := op.J[k].(string); return s }

func (w *World) execRP(r *opResult) {
	op := r.op
	c := w.own[op.A]
	if c == nil {
		r.err = "none"
		return
	}
	s := w.sharedFor(op)
	switch op.Kind {
	case "authurl":
		u, err := c.leaf.GetAuthorizationURL(op.Sub, op.str("redirect"), op.str("state"), op.str("scope"), s.v)
		r.setErr(err)
		r.raw = u
	case "code":
		t, e, err := c.leaf.CodeExchange(op.Sub, op.str("code"), op.str("redirect"), s.v)
		r.setErr(err)
		if e != nil {
			r.out = J{"error": e.Error}
		}
		if t != nil {
			if r.out == nil {
				r.out = J{}
			}
			r.out["token"] = t.AccessToken
			r.out["extra"] = rejson(t.Extra)
		}
	case "opmeta":
		m, err := c.leaf.ResolveOPMetadata(op.Sub)
		r.setErr(err)
		if err == nil {
			if m == nil {
				w.fail("C21 C20", "op %d: provider metadata are nil without an error", r.idx)
				r.err = "nil"
				return
			}
			r.meta = map[string]any{"openid_provider": toMap(m)}
		}
	}
	if s.print() != s.orig {
		w.fail("C21 C13", "op %d (%s): the passed parameters are changed to %s, were %s", r.idx, op.Kind, s.print(), s.orig)
	}
}

// endpointsSeen are all endpoints some party named truthfully.
func (w *World) endpointsSeen() map[string]bool {
	out := map[string]bool{}
	var walk func(v any, on bool)
	walk = func(v any, on bool) {
		switch x := v.(type) {
		case string:
			if on {
				out[x] = true
			}
		case []any:
			for _, e := range x {
				walk(e, on)
			}
		case map[string]any:
			for k, e := range x {
				walk(e, on || k == "authorization_endpoint" || k == "token_endpoint" || k == "issuer")
			}
		}
	}
	for _, i := range w.ledger {
		if j := decodeJWT(i.raw); j != nil {
			walk(j.claims, false)
		}
	}
	return out
}

// providers are the provider metadata an operation may go by; sure is false when there
// may be others.
func (w *World) providers(r *opResult) (metas []map[string]any, sure, mustWork bool) {
	good, all, unknown := w.candidates(r)
	min := 1 << 30
	for _, p := range good {
		if len(p.ids) < min {
			min = len(p.ids)
		}
	}
	mustWork = len(good) > 0
	for _, p := range all {
		if effLen(len(p.ids)) > effLen(min) {
			continue
		}
		m, _ := rejson(r.snap.metas[p.key()].m).(map[string]any)
		o, ok := m["openid_provider"].(map[string]any)
		if !ok {
			if m["openid_provider"] == nil {
				mustWork = false
			}
			continue
		}
		metas = append(metas, o)
	}
	if len(metas) == 0 {
		mustWork = false
	}
	return metas, w.isQuietFor(r) && !unknown && !w.hasByz(), mustWork && w.isQuietFor(r)
}

func (w *World) judgeRP(r *opResult) {
	if r.err == "none" {
		return
	}
	op := r.op
	w.probe("relying party operations")
	metas, sure, mustWork := w.providers(r)
	bad := func(f string, a ...any) {
		w.fail("C21", "op %d (%s %s): "+f, append([]any{r.idx, op.Kind, op.Sub}, a...)...)
	}
	// what was sent
	var posts []*request
	for _, q := range w.reqs[r.seq0:r.seq1] {
		if q.tag != r.tag {
			continue
		}
		if strings.HasPrefix(q.url, evil) {
			bad("contacts %s", q.url)
			return
		}
		if q.url != "" && q.what != "ec" && q.what != "fetch" && q.what != "resolve" && !strings.HasSuffix(q.base, ecSuffix) {
			posts = append(posts, q)
		}
	}
	if op.Kind == "opmeta" {
		if r.err != "" {
			if mustWork {
				bad("fails with %q although there is a valid chain", r.err)
			}
			return
		}
		if sure {
			for _, m := range metas {
				if metaDiff(r.meta, normalMeta(map[string]any{"openid_provider": m})) == "" {
					w.probe("provider metadata predicted")
					return
				}
			}
			bad("gives %s, should be one of %s", mustJSON(r.meta), mustJSON(metas))
		}
		return
	}
	if op.Kind == "authurl" {
		if len(posts) > 0 {
			bad("contacts %s", posts[0].url)
		}
		w.judgeAuthURL(r, metas, sure, mustWork)
		return
	}
	if len(posts) > 1 {
		bad("%d token requests are sent", len(posts))
	}
	if len(posts) == 0 {
		if r.err == "" {
			bad("ends without an error although no token request was sent")
			return
		}
		for _, m := range metas {
			if e, _ := m["token_endpoint"].(string); e == "" {
				mustWork = false
			}
		}
		if mustWork {
			bad("fails with %q although there is a valid chain", r.err)
		}
		return
	}
	w.probe("token requests")
	q := posts[0]
	if q.method != "POST" {
		bad("the token request is a %s", q.method)
	}
	if sure {
		ok := false
		for _, m := range metas {
			if m["token_endpoint"] == q.url {
				ok = true
			}
		}
		if !ok {
			bad("the token request goes to %s, resolved are %s", q.url, mustJSON(metas))
		}
		w.probe("token requests predicted")
	} else if !w.endpointsSeen()[q.url] {
		bad("the token request goes to %s, which nobody named", q.url)
	}
	f, err := url.ParseQuery(q.reqBody)
	if err != nil {
		bad("the token request is no form: %q", q.reqBody)
		return
	}
	want := map[string]string{"grant_type": "authorization_code", "code": op.str("code"), "redirect_uri": op.str("redirect"), "client_id": op.A,
		"client_assertion_type": "urn:ietf:params:oauth:client-assertion-type:jwt-bearer"}
	for _, k := range sortedKeys(want) {
		if len(f[k]) != 1 || f.Get(k) != want[k] {
			bad("%s of the token request is %v, should be %s", k, f[k], want[k])
		}
	}
	p := w.sharedFor(op)
	for _, k := range sortedKeys(p.v) {
		if _, set := want[k]; !set && k != "client_assertion" && !reflect.DeepEqual(f[k], p.v[k]) {
			bad("%s of the token request is %v, should be %v", k, f[k], p.v[k])
		}
	}
	if len(f["client_assertion"]) != 1 {
		bad("the token request has %d client assertions", len(f["client_assertion"]))
		return
	}
	j := decodeJWT(f.Get("client_assertion"))
	w.checkOwnToken(r, "client assertion", j, q.at, q.url, true)
	// the answer
	if q.done == 0 || q.err {
		if r.err == "" {
			bad("ends without an error although there was no answer to the token request")
		}
		return
	}
	var m map[string]any
	isObj := json.Unmarshal([]byte(q.body), &m) == nil && m != nil
	code, _ := m["error"].(string)
	tok, _ := m["access_token"].(string)
	switch q.fault {
	case "", "dup", "stall":
	default:
		return
	}
	switch {
	case isObj && code != "":
		if r.err != "" || r.out["error"] != code {
			bad("the error %s of the provider becomes %q/%v", code, r.err, r.out)
		}
	case isObj && q.status == 200 && tok != "":
		if r.err != "" || r.out["error"] != nil || r.out["token"] != tok {
			bad("the token response becomes %q/%v", r.err, r.out)
		}
	case q.body == "null" && q.status == 200:
	case !isObj || q.status != 200:
		if r.err == "" {
			bad("the answer %d %q of the provider is taken for %v", q.status, q.body, r.out)
		}
	}
}

// checkOwnToken checks a request object or a client assertion.
func (w *World) checkOwnToken(r *opResult, what string, j *rawJWT, at time.Duration, aud string, sub bool) bool {
	op := r.op
	bad := func(f string, a ...any) {
		w.fail("C21 C17", "op %d (%s %s): the "+what+" "+f, append([]any{r.idx, op.Kind, op.Sub}, a...)...)
	}
	if j == nil {
		bad("is no token")
		return false
	}
	if !j.verifiedBy(rejson(jwksOf(oidcKey(op.A)))) {
		bad("is not signed with the configured key")
	}
	if j.str("iss") != op.A {
		bad("is issued by %v", j.claims["iss"])
	}
	if sub && j.str("sub") != op.A {
		bad("is about %v", j.claims["sub"])
	}
	if a := j.claims["aud"]; aud != "" && a != aud {
		if l, ok := strList(a); !ok || len(l) != 1 || l[0] != aud {
			bad("is for %v, should be for %s", a, aud)
		}
	}
	iat, exp := ofUnix(j.num("iat")), ofUnix(j.num("exp"))
	if iat > at+jwtTol || iat < at-time.Second-jwtTol {
		bad("is issued at %v, made at %v", iat, at)
	}
	if d := exp - iat - sec(60); j.claims["exp"] == nil || d > jwtTol || d < -jwtTol {
		bad("lives for %v, should for 1m", exp-iat)
	}
	w.freshID(r, what, j)
	return true
}

var urlParams = []string{"request", "client_id", "response_type", "redirect_uri", "scope"}

func splitURL(s string) (string, url.Values, bool) {
	u, err := url.Parse(s)
	if err != nil {
		return "", nil, false
	}
	q := u.Query()
	u.RawQuery = ""
	return u.String(), q, true
}

func (w *World) judgeAuthURL(r *opResult, metas []map[string]any, sure, mustWork bool) {
	op := r.op
	bad := func(f string, a ...any) {
		w.fail("C21", "op %d (%s %s): "+f, append([]any{r.idx, op.Kind, op.Sub}, a...)...)
	}
	if r.err != "" {
		for _, m := range metas {
			if e, _ := m["authorization_endpoint"].(string); e == "" {
				mustWork = false
			}
		}
		if mustWork {
			bad("fails with %q although there is a valid chain", r.err)
		}
		return
	}
	w.probe("authorization URLs")
	if strings.HasPrefix(r.raw, evil) {
		bad("leads to %s", r.raw)
		return
	}
	base, q, ok := splitURL(r.raw)
	if !ok {
		bad("the URL %q is none", r.raw)
		return
	}
	j := decodeJWT(q.Get("request"))
	if j == nil {
		bad("the URL has no request object")
		return
	}
	same := func(endpoint string) bool {
		b, eq, ok := splitURL(endpoint)
		if !ok || b != base || endpoint == "" {
			return false
		}
		have := url.Values{}
		for k, v := range q {
			have[k] = v
		}
		for _, k := range urlParams {
			delete(have, k)
			delete(eq, k)
		}
		return have.Encode() == eq.Encode()
	}
	aud, _ := j.claims["aud"].(string)
	if sure {
		ok := false
		for _, m := range metas {
			e, _ := m["authorization_endpoint"].(string)
			i, _ := m["issuer"].(string)
			if same(e) && i == aud {
				ok = true
			}
		}
		if !ok {
			bad("leads to %s for %q, resolved are %s", base, aud, mustJSON(metas))
		}
		w.probe("authorization URLs predicted")
	} else {
		ok := false
		seen := w.endpointsSeen()
		for e := range seen {
			if same(e) {
				ok = true
			}
		}
		if !ok || (aud != "" && !seen[aud]) {
			bad("leads to %s for %q, which nobody named", base, aud)
		}
	}
	w.checkOwnToken(r, "request object", j, r.t1, "", false)
	want := map[string]string{"client_id": op.A, "response_type": "code", "redirect_uri": op.str("redirect"), "scope": op.str("scope")}
	for _, k := range sortedKeys(want) {
		if len(q[k]) != 1 || q.Get(k) != want[k] {
			bad("%s of the URL is %v, should be %s", k, q[k], want[k])
		}
		if g, _ := j.claims[k].(string); g != want[k] {
			bad("%s of the request object is %v, should be %s", k, j.claims[k], want[k])
		}
	}
	if g, _ := j.claims["state"].(string); g != op.str("state") {
		bad("state of the request object is %v, should be %s", j.claims["state"], op.str("state"))
	}
	p := w.sharedFor(op)
	for _, k := range sortedKeys(p.v) {
		switch k {
		case "aud", "state", "client_id", "response_type", "redirect_uri", "scope", "iss", "sub", "client_secret", "iat", "exp", "jti":
			continue
		}
		var g []string
		if s, ok := j.claims[k].(string); ok {
			g = []string{s}
		} else {
			g, _ = strList(j.claims[k])
		}
		if !reflect.DeepEqual(g, p.v[k]) {
			bad("%s of the request object is %v, should be %v", k, j.claims[k], p.v[k])
		}
	}
}

// tokenEndpoint answers the code exchange.
func (w *World) tokenEndpoint(n *node, q *request, t time.Duration) *reply {
	js := func(status int, v any) *reply {
		return &reply{status: status, ctype: "application/json", body: string(mustJSON(v))}
	}
	switch n.Token {
	case "err":
		return js(400, J{"error": "invalid_grant", "error_description": "no"})
	case "err200":
		return js(200, J{"error": "invalid_client"})
	case "err401":
		return &reply{status: 401, ctype: "application/json", body: `{"error":"invalid_client"}`, extra: map[string]string{"WWW-Authenticate": "Basic"}}
	case "html":
		return &reply{status: 200, ctype: "text/html", body: "<html>hello</html>"}
	case "html502":
		return &reply{status: 502, ctype: "text/html", body: "<html>oops</html>"}
	case "json500":
		return js(500, J{"message": "internal"})
	case "json403":
		return js(403, J{"message": "forbidden"})
	case "tok403":
		return js(pick(newRng(hashStr(7, q.url+q.query)), 403, 401, 404, 429, 400), J{"access_token": "at of " + n.ID, "token_type": "Bearer"})
	case "empty":
		return &reply{status: 200}
	case "list":
		return js(200, []any{})
	case "null":
		return js(200, nil)
	case "wrong":
		return js(200, J{"access_token": 17})
	}
	return js(200, J{"access_token": "at of " + n.ID, "token_type": "Bearer", "expires_in": 300, "id_token": "x.y.z", "x_more": 1})
}

// makeEvil lets a forged statement lead to an attacker.
func (w *World) makeEvil(c J) {
	if w.plan.Params["evil"] == 0 {
		return
	}
	m, _ := rejson(c["metadata"]).(map[string]any)
	if m == nil {
		return
	}
	o, _ := m["openid_provider"].(map[string]any)
	if o == nil {
		return
	}
	o["authorization_endpoint"], o["token_endpoint"] = evil+"/authz", evil+"/token"
	c["metadata"] = m
}
