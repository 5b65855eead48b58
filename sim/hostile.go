package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"maps"
	"net/url"
	"sort"
	"strings"
	"time"
)

// Hostile parties: they sign what they want and answer what they want. Everything is
// derived from the honest answer by seeded mutations, so that most of it gets far into
// the code under test.

// hostile replaces the honest answer to a request.
func (w *World) hostile(q *request, rt route, params url.Values) *reply {
	n := rt.n
	seed := n.Hostile[rt.what]
	if seed == 0 || w.calm {
		return nil
	}
	w.calm, w.noRecord = true, true
	rep := w.serve(q, rt, params)
	w.calm, w.noRecord = false, false
	m := &mutator{rng: newRng(mix(uint64(seed), hashStr(0, q.url), uint64(w.occ[q.url]%5))), w: w, nd: n, what: rt.what}
	w.faults["hostile:"+rt.what]++
	out := rep // as if nothing were wrong
	if !m.p(m.n0(8, 25, 10)) {
		q.hostile = true
		out = m.reply(rep, q)
	}
	if decodeJWT(out.body) != nil && w.ledger[out.body] == nil {
		w.ledger[out.body] = &issued{raw: out.body, kind: "hostile", by: n.ID, served: now()}
	}
	return out
}

type mutator struct {
	*rng
	w    *World
	nd   *node
	what string
	subs map[string]string // placeholders
}

// n0 is one of the numbers, always the same for a node.
func (m *mutator) n0(xs ...int) int { return xs[int(hashStr(3, m.nd.ID)%uint64(len(xs)))] }

func (m *mutator) reply(rep *reply, q *request) *reply {
	if m.p(14) {
		return m.rawReply(rep, q)
	}
	out := *rep
	if j := decodeJWT(rep.body); j != nil {
		out.body = m.token(j, 0)
	} else {
		var v any
		if json.Unmarshal([]byte(rep.body), &v) != nil {
			v = map[string]any{}
		}
		if m.p(30) {
			v = m.hostileBody(v)
		} else {
			v = m.mutate(v)
		}
		out.body = m.finish(v)
		if m.p(20) {
			out.status = pick(m.rng, 200, 201, 400, 404, 500)
		}
	}
	return &out
}

// hostileBody makes up bodies for the different endpoints.
func (m *mutator) hostileBody(v any) any {
	switch m.what {
	case "list":
		l := []any{}
		for i := 0; i < m.n(30); i++ {
			l = append(l, m.id())
		}
		if m.p(30) {
			l = append(l, m.any())
		}
		return l
	case "collect":
		e := func() any {
			x := map[string]any{"entity_id": m.id(), "entity_types": []any{"openid_provider"}}
			for i := 0; i < m.n(3); i++ {
				x[pick(m.rng, "entity_id", "entity_types", "ui_infos", "trust_marks", "metadata", "trust_chain", "x")] = m.any()
			}
			if m.p(40) {
				x["ui_infos"] = map[string]any{pick(m.rng, "openid_provider", "federation_entity", "x"): pick[any](m.rng, m.any(), map[string]any{"display_name": m.any(), "keywords": m.any(), "logo_uri": m.any()})}
			}
			return x
		}
		l := []any{}
		for i := 0; i < m.n(5); i++ {
			l = append(l, e())
		}
		if m.p(25) {
			l = append(l, m.any())
		}
		o := map[string]any{"federation_entities": l, "last_updated": 946684800}
		if m.p(40) {
			o[pick(m.rng, "federation_entities", "next", "last_updated", "next_entity_id")] = m.any()
		}
		return o
	case "token":
		return map[string]any{"access_token": m.any(), "expires_in": m.any(), "error": pick[any](m.rng, "", m.any()), "token_type": m.any()}
	}
	return m.any()
}

// id is an identifier as a hostile party may choose it.
func (m *mutator) id() string {
	switch m.rng.n(9) {
	case 0:
		return m.nd.ID
	case 1, 2, 3:
		return pick(m.rng, m.w.order...)
	case 4:
		return fmt.Sprintf("https://h%d.nowhere.example.org", m.rng.n(20))
	}
	return pick(m.rng, "", " ", "x", "https://", "://", "https://[::1", "http://a b/", "https://a:99999/", "javascript:alert(1)", "https://user:pw@"+hostOf(m.nd.ID), m.nd.ID+"/",
		m.nd.ID+"?x=y", m.nd.ID+"#f", strings.ToUpper(m.nd.ID), "https://%zz", "file:///etc/passwd", "\u0000", "https://ü.example.org", "//"+hostOf(m.nd.ID), "https:"+hostOf(m.nd.ID), strings.Repeat("https://x", 3000))
}

// any is some JSON value.
func (m *mutator) any() any {
	switch m.rng.n(24) {
	case 0, 1, 2:
		return nil
	case 3:
		return m.p(50)
	case 4:
		return float64(pick(m.rng, 0, -1, 1, 17, 1<<31, -1<<40))
	case 5:
		return pick(m.rng, 1.5, 1e308, -1e308, 5e-324, 9.3e18, 1.9e19)
	case 6:
		return m.hold("1e400", "-0", "123456789012345678901234567890")
	case 7, 8:
		return m.id()
	case 9:
		return pick(m.rng, "", "x", " ", "null", "\u0000", "�", "🦄", "a.b.c", "e30.e30.", "..", "{}")
	case 10, 11:
		return []any{}
	case 12, 13:
		return map[string]any{}
	case 14:
		return []any{nil}
	case 15:
		return []any{[]any{}, map[string]any{}, "x", nil, 1.0}
	case 16:
		return []any{map[string]any{"": nil}}
	case 17:
		return map[string]any{"": nil, "a": nil, m.id(): m.id()}
	case 18:
		l := []any{}
		for i := 0; i < m.rng.n(400); i++ {
			l = append(l, fmt.Sprint("v", i))
		}
		return l
	case 19:
		return strings.Repeat("x", m.rng.n(100_000))
	case 20:
		d := m.rng.n(12_000)
		return m.hold(strings.Repeat("[", d)+strings.Repeat("]", d), strings.Repeat(`{"a":`, d)+"1"+strings.Repeat("}", d), strings.Repeat("[", d))
	case 21:
		return m.hold("\"\xff\xfe\"", `"\ud800"`, `{"a":1,"a":[]}`, `{"a":`, "\"\x01\"")
	case 22:
		return signJWT(attackerKey(m.nd), pick(m.rng, "JWT", "trust-mark+jwt", "entity-statement+jwt"), J{"iss": m.id(), "sub": m.id(), "trust_mark_type": m.any(), "iat": m.any(), "exp": m.any()})
	}
	return []any{m.id(), m.id()}
}

// hold keeps the place of text that is no JSON value.
func (m *mutator) hold(opts ...string) any {
	if m.subs == nil {
		m.subs = map[string]string{}
	}
	k := fmt.Sprintf("@@%d@@", len(m.subs))
	m.subs[k] = pick(m.rng, opts...)
	return k
}

func (m *mutator) finish(v any) string {
	s := string(mustJSON(v))
	ks := []string{}
	for k := range m.subs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s = strings.ReplaceAll(s, `"`+k+`"`, m.subs[k])
	}
	return s
}

// mutate changes something somewhere.
func (m *mutator) mutate(v any) any {
	switch x := v.(type) {
	case map[string]any:
		if len(x) == 0 {
			return m.any()
		}
		if m.p(7) {
			return m.any()
		}
		k := pick(m.rng, sortedKeys(x)...)
		switch m.rng.n(10) {
		case 0:
			delete(x, k)
		case 1, 2, 3:
			x[k] = m.any()
		case 4:
			x[pick(m.rng, "", "x", k+"x", strings.ToUpper(k))] = m.any()
		default:
			x[k] = m.mutate(x[k])
		}
		return x
	case []any:
		if len(x) == 0 || m.p(15) {
			return m.any()
		}
		i := m.rng.n(len(x))
		switch m.rng.n(8) {
		case 0:
			return append(append([]any{}, x[:i]...), x[i+1:]...)
		case 1:
			return append(x, m.any())
		case 2, 3:
			x[i] = m.any()
		case 4:
			return append(x, x[i])
		default:
			x[i] = m.mutate(x[i])
		}
		return x
	case string:
		if j := decodeJWT(x); j != nil && m.p(70) {
			return m.token(j, 1)
		}
	}
	return m.any()
}

// token changes a token and signs it again.
func (m *mutator) token(j *rawJWT, depth int) string {
	c, _ := rejson(j.claims).(map[string]any)
	if m.p(85) {
		for i := 0; i < 1+m.rng.n(3); i++ {
			if m.p(70) && depth == 0 && (m.what == "ec" || m.what == "fetch") {
				m.special(c)
			} else if r, ok := m.mutate(c).(map[string]any); ok {
				c = r
			}
		}
	}
	var payload string
	if m.p(4) {
		payload = pick(m.rng, "", "null", "[]", "17", `"x"`, "{", "{}", "[{}]", "true", "\xff")
	} else {
		payload = m.finish(c)
	}
	key := m.nd.key()
	hdr := J{"alg": key.alg, "kid": key.kid, "typ": j.typ()}
	head := ""
	if m.p(12) {
		switch m.rng.n(8) {
		case 0:
			hdr["alg"] = pick[any](m.rng, "none", "HS256", "ES256", "EdDSA", "RS256", "", nil, 1.0, []any{})
		case 1:
			delete(hdr, pick(m.rng, "alg", "kid", "typ"))
		case 2:
			hdr[pick(m.rng, "kid", "typ", "alg")] = m.any()
		case 3:
			hdr["crit"] = pick[any](m.rng, []any{"exp"}, []any{"b64"}, []any{}, "x", nil)
			hdr["b64"] = pick[any](m.rng, false, true, nil)
		case 4:
			hdr[pick(m.rng, "jwk", "x5c", "jku", "zip", "cty", "x5t", "x5u")] = m.any()
		case 5:
			hdr["jwk"] = maps.Clone(key.jwk)
		case 6:
			head = pick(m.rng, "", "{", "null", "[]", "x", `{"alg":"EdDSA"`, "{}")
		case 7:
			hdr["typ"] = pick[any](m.rng, "JWT", "", strings.ToUpper(j.typ()), "application/"+j.typ(), nil)
		}
	}
	if head == "" {
		head = m.finish(hdr)
	}
	s := b64([]byte(head)) + "." + b64([]byte(payload))
	sig := key.sign([]byte(s))
	if m.p(5) {
		switch m.rng.n(7) {
		case 0:
			return s + "."
		case 1:
			return s
		case 2:
			return s + "." + b64(sig) + "." + b64(sig)
		case 3:
			return s + "." + b64(sig[:m.rng.n(len(sig))])
		case 4:
			return `{"payload":"` + b64([]byte(payload)) + `","protected":"` + b64([]byte(head)) + `","signature":"` + b64(sig) + `"}`
		case 5:
			return `{"payload":"` + b64([]byte(payload)) + `","signatures":[]}`
		case 6:
			return " " + s + "." + b64(sig) + "=\n"
		}
	}
	return s + "." + b64(sig)
}

var opNames = []string{"value", "add", "default", "one_of", "subset_of", "superset_of", "essential", "regexp", "x"}

func (m *mutator) operator() any {
	o := map[string]any{}
	for i := 0; i < 1+m.rng.n(3); i++ {
		o[pick(m.rng, opNames...)] = pick[any](m.rng, m.any(), m.any(), m.any(), "x", toAny(scopes[:1+m.rng.n(3)]), true)
	}
	return o
}

var policyClaims = []string{"scope", "contacts", "client_name", "organization_name", "scopes_supported", "grant_types", "jwks", "jwks_uri", "issuer", "token_endpoint", "redirect_uris",
	"request_uris", "default_max_age", "require_auth_time", "client_registration_types_supported", "x_level", "x_tags", "response_types", "signed_jwks_uri", "id_token_signing_alg_values_supported",
	"request_authentication_methods_supported", "display_name", "keywords", "federation_fetch_endpoint", "constructor", ""}

func (m *mutator) policy() any {
	p := map[string]any{}
	for i := 0; i < 1+m.rng.n(3); i++ {
		e := map[string]any{}
		for k := 0; k < 1+m.rng.n(4); k++ {
			e[pick(m.rng, policyClaims...)] = pick[any](m.rng, m.operator(), m.operator(), m.operator(), m.operator(), m.any())
		}
		p[pick(m.rng, "openid_provider", "openid_relying_party", "federation_entity", "oauth_client", "oauth_authorization_server", "oauth_resource", "x_service", "")] = pick[any](m.rng, e, e, e, e, m.any())
	}
	return p
}

func (m *mutator) jwks() any {
	k := m.nd.key()
	big := strings.Repeat("A", 1+m.rng.n(4000))
	keys := []any{}
	for i := 0; i < m.rng.n(4); i++ {
		keys = append(keys, pick[any](m.rng, maps.Clone(k.jwk), nil, map[string]any{}, m.any(), map[string]any{"kty": m.any(), "kid": k.kid},
			map[string]any{"kty": "RSA", "n": "AQ", "e": "AQAB", "kid": k.kid}, map[string]any{"kty": "RSA", "n": big, "e": big, "kid": k.kid},
			map[string]any{"kty": "EC", "crv": "P-256", "x": "AQ", "y": "AQ", "kid": k.kid}, map[string]any{"kty": "EC", "crv": "P-999", "x": big, "y": big},
			map[string]any{"kty": "OKP", "crv": "Ed25519", "x": "AQ", "kid": k.kid}, map[string]any{"kty": "OKP", "crv": "X25519", "x": k.jwk["x"], "kid": k.kid},
			map[string]any{"kty": "oct", "k": "c2VjcmV0", "kid": k.kid, "alg": "HS256"}, map[string]any{"kty": "OKP", "crv": "Ed25519", "x": k.jwk["x"], "kid": m.any()},
			map[string]any{"kty": "OKP", "crv": "Ed25519", "x": k.jwk["x"], "kid": k.kid, "alg": m.any(), "use": m.any(), "key_ops": m.any(), "x5c": m.any()}))
	}
	switch m.rng.n(8) {
	case 0:
		return m.any()
	case 1:
		return map[string]any{"keys": m.any()}
	case 2:
		return map[string]any{}
	case 3:
		return map[string]any{"keys": keys, "x": m.any()}
	case 4:
		return append([]any{}, keys...)
	}
	return map[string]any{"keys": append(keys, maps.Clone(k.jwk))}
}

// special sets a claim the code under test looks at.
func (m *mutator) special(c map[string]any) {
	md := func() map[string]any {
		x, _ := c["metadata"].(map[string]any)
		if x == nil {
			x = map[string]any{}
			c["metadata"] = x
		}
		return x
	}
	switch m.rng.n(22) {
	case 0, 1, 2:
		c["metadata_policy"] = m.policy()
	case 3:
		c["metadata_policy"] = m.any()
	case 4:
		c["metadata_policy_crit"] = pick[any](m.rng, m.any(), []any{"regexp"}, []any{"value"}, []any{})
	case 5, 6:
		co := map[string]any{"max_path_length": pick[any](m.rng, m.any(), 0.0, -1.0, 1e18)}
		co["naming_constraints"] = pick[any](m.rng, m.any(), map[string]any{"permitted": m.any()}, map[string]any{"excluded": m.any(), "permitted": []any{".", "", ".example.org"}}, map[string]any{"excluded": []any{m.id(), "."}})
		co["allowed_entity_types"] = pick[any](m.rng, m.any(), []any{}, []any{nil}, []any{"openid_provider", 1.0})
		delete(co, pick(m.rng, sortedKeys(co)...))
		c["constraints"] = pick[any](m.rng, co, co, co, m.any())
	case 7, 8:
		c["jwks"] = m.jwks()
	case 9, 10:
		l := []any{}
		for i := 0; i < m.rng.n(20); i++ {
			l = append(l, m.id())
		}
		c["authority_hints"] = pick[any](m.rng, l, l, l, m.any(), append(l, m.any()))
	case 11:
		c["trust_marks"] = pick[any](m.rng, m.any(), []any{nil}, []any{map[string]any{}}, []any{map[string]any{"trust_mark_type": m.any(), "trust_mark": m.any()}},
			[]any{map[string]any{"trust_mark_type": "member", "trust_mark": signJWT(m.nd.key(), "trust-mark+jwt", J{"iss": m.id(), "sub": c["sub"], "trust_mark_type": "member", "iat": 1, "exp": m.any(), "delegation": m.any()})}})
	case 12:
		c["trust_mark_issuers"] = pick[any](m.rng, m.any(), map[string]any{"member": m.any(), markTypes[0]: []any{nil}, markTypes[1]: []any{m.id()}})
	case 13:
		c["trust_mark_owners"] = pick[any](m.rng, m.any(), map[string]any{"member": m.any(), markTypes[0]: map[string]any{"sub": m.any(), "jwks": m.jwks()}, markTypes[1]: map[string]any{"sub": m.id()}})
	case 14, 15:
		t := pick(m.rng, "openid_provider", "openid_relying_party", "federation_entity", "oauth_client", "oauth_authorization_server", "oauth_resource", "x_service")
		md()[t] = pick[any](m.rng, m.any(), nil, map[string]any{})
	case 16, 17:
		x := md()
		if len(x) > 0 {
			if t, ok := x[pick(m.rng, sortedKeys(x)...)].(map[string]any); ok {
				for i := 0; i < 1+m.rng.n(3); i++ {
					t[pick(m.rng, policyClaims...)] = m.any()
				}
			}
		}
	case 18:
		x, _ := md()["federation_entity"].(map[string]any)
		if x == nil {
			x = map[string]any{}
			md()["federation_entity"] = x
		}
		for i := 0; i < 1+m.rng.n(3); i++ {
			x[pick(m.rng, "federation_fetch_endpoint", "federation_list_endpoint", "federation_resolve_endpoint", "federation_collection_endpoint", "federation_trust_mark_endpoint", "federation_trust_mark_status_endpoint")] =
				pick[any](m.rng, m.any(), m.id(), m.nd.url("fetch"), m.nd.url("list"), m.nd.ID+ecSuffix)
		}
	case 19:
		c[pick(m.rng, "iat", "exp", "iss", "sub")] = m.any()
	case 20:
		c[pick(m.rng, "crit", "source_endpoint", "trust_anchor_id", "aud", "jti", "x", "nbf")] = m.any()
	case 21:
		c["metadata"] = m.any()
	}
}

// rawReply has nothing to do with the protocol.
func (m *mutator) rawReply(rep *reply, q *request) *reply {
	out := &reply{status: 200, ctype: rep.ctype, body: rep.body, extra: map[string]string{}}
	switch m.rng.n(28) {
	case 0:
		out.body = ""
	case 1:
		out.body = strings.Repeat(pick(m.rng, "x", " ", "a.", "[", `{"a":`), m.rng.n(3_000_000))
	case 2:
		out.body = pick(m.rng, "null", "[]", "{}", `""`, "17", "true", "<html>", "\xff\xfe", "..", ".", "a.b.c", "e30.e30.e30")
	case 3, 4:
		out.status = pick(m.rng, 301, 302, 303, 307, 308, 300)
		loc := pick(m.rng, q.url, m.nd.url("list"), m.nd.ID+ecSuffix, "", "?", "/", "://", "file:///etc/passwd", "https://nowhere.example.org/", "http://[::1", pick(m.rng, m.w.order...)+ecSuffix)
		if loc != "" {
			out.extra["Location"] = loc
		}
	case 5:
		out.status = pick(m.rng, 100, 101, 199, 204, 205, 206, 304, 402, 418, 429, 451, 500, 501, 511, 599, 600, 999)
		out.extra["Retry-After"] = pick(m.rng, "1", "100000000000000000000", "-5", "Wed, 21 Oct 2099 07:28:00 GMT", "x", "86400")
	case 6:
		out.extra["Content-Encoding"] = pick(m.rng, "gzip", "br", "deflate", "x")
	case 7:
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		_, _ = z.Write([]byte(strings.Repeat(pick(m.rng, "\x00", rep.body), m.rng.n(3000))))
		_ = z.Close()
		out.body = b.String()
		out.extra["Content-Encoding"] = "gzip"
	case 8:
		out.drip = time.Duration(pick(m.rng, 1, 300, 5000)) * time.Millisecond
	case 9:
		out.ctype = pick(m.rng, "", "x", "text/html; charset=utf-99", "application/json; =", "multipart/mixed; boundary=x", "application/json")
	case 10:
		b := []byte(rep.body)
		for i := 0; i < 1+m.rng.n(20) && len(b) > 0; i++ {
			b[m.rng.n(len(b))] = byte(m.rng.n(256))
		}
		out.body = string(b)
	case 11:
		if len(rep.body) > 0 {
			out.body = rep.body[:m.rng.n(len(rep.body))]
		}
	case 12:
		out.body = rep.body + pick(m.rng, rep.body, "x", "\n", "}", " null")
	case 14:
		out.flood = true
		out.body = pick(m.rng, out.body, "", "[", `["`, `{"x":[`, "eyJ")
	case 15:
		out.flood = true
		out.extra["Content-Encoding"] = "gzip"
		out.body = zeros()
	case 16, 17, 18, 19, 20:
		out.status = pick(m.rng, 400, 401, 403, 404, 500, 503)
		out.body = pick(m.rng, `{"error":null}`, `{"error":17}`, `{"error":{}}`, `[]`, `null`, `{"error":""}`, `{}`, `"x"`, `{"error":"x","error_description":[]}`, "")
		out.ctype = pick(m.rng, "application/json", "text/plain", "")
	}
	return out
}

// dripReader delivers a byte now and then, and never ends.
type dripReader struct {
	ctx  context.Context
	q    *request
	body string
	gap  time.Duration
	i    int
}

func (d *dripReader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	defer func() { d.q.done = now() }()
	n := min(len(p), 50)
	if !wait(d.ctx, d.gap*time.Duration(n)) {
		return 0, d.ctx.Err()
	}
	for k := 0; k < n; k++ {
		p[k] = ' '
		if d.i < len(d.body) {
			p[k] = d.body[d.i]
		}
		d.i++
	}
	return n, nil
}

func (d *dripReader) Close() error { return nil }

// floodReader delivers without end and as fast as it is read.
type floodReader struct {
	ctx context.Context
	w   *World
	q   *request
	rep *reply
	n   int
}

const floodMax = 400 << 20 // what nobody reads of one answer

func zeros() string {
	if zeroMember == "" {
		var b bytes.Buffer
		z, _ := gzip.NewWriterLevel(&b, 1)
		_, _ = z.Write(make([]byte, 4<<20))
		_ = z.Close()
		zeroMember = b.String()
	}
	return zeroMember
}

var zeroMember string

func (d *floodReader) Read(p []byte) (int, error) {
	if err := d.ctx.Err(); err != nil {
		return 0, err
	}
	limit := floodMax
	if d.rep.extra["Content-Encoding"] == "gzip" && d.q.what != "token" { // there it is not unpacked here
		limit = floodMax / (4 << 20) * len(d.rep.body)
	}
	if d.n > limit {
		d.w.fail("C20", "op %d: %d bytes of the answer to %s (encoding %q) are read, and still more; it does not end", d.q.tag, d.n, d.q.url, d.rep.extra["Content-Encoding"])
		d.q.err = true
		return 0, io.ErrUnexpectedEOF
	}
	n := 0
	if d.n < len(d.rep.body) || d.rep.extra["Content-Encoding"] == "gzip" {
		n = copy(p, d.rep.body[d.n%len(d.rep.body):])
	} else {
		for n = 0; n < len(p); n++ {
			p[n] = ' '
		}
	}
	d.n += n
	d.q.err = true // as no answer ever is complete
	return n, nil
}

func (d *floodReader) Close() error { return nil }

// afflicted tells whether a failure of another property counts: what does not depend on
// the hostile parties is still as it should be.
func (w *World) afflicted(props, msg string) bool {
	for _, p := range strings.Fields(props) {
		switch p {
		case "C04", "C05", "C06", "C07", "C11", "C12", "C14", "C15", "C16", "C17", "C18", "C19":
			return true
		case "C21":
			return strings.Contains(msg, "although there is a valid chain")
		}
	}
	return false
}
