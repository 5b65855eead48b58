package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"sync"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	"github.com/go-oidfed/lib/jwks"
	"github.com/go-oidfed/lib/unixtime"
	"github.com/lestrrat-go/jwx/v3/jwa"
)

// Entities that are run with the code under test: they publish configurations with
// trust marks they maintain, issue trust marks and delegations, and act as relying party.

// OwnSpec describes such an entity; its id is the one of a node.
type OwnSpec struct {
	ID      string      `json:"id"`
	Life    int         `json:"life"` // of its configurations, seconds; 0 default
	Anchors []AnchorQ   `json:"anchors,omitempty"`
	Marks   []OwnMark   `json:"marks,omitempty"`
	Issue   []IssueSpec `json:"issue,omitempty"`
	Owned   []IssueSpec `json:"owned,omitempty"`
	ROLife  int         `json:"ro_life,omitempty"` // of its second producer of request objects, seconds
}

// OwnMark is a trust mark to be shown in the configuration.
type OwnMark struct {
	Type    string    `json:"type"`
	Issuer  string    `json:"issuer,omitempty"`
	Self    bool      `json:"self,omitempty"`
	Refresh bool      `json:"refresh,omitempty"`
	Init    *MarkSpec `json:"init,omitempty"`
	Min     int       `json:"min,omitempty"`
	Grace   int       `json:"grace,omitempty"`
	Life    int       `json:"life,omitempty"` // of self issued marks
}

// IssueSpec is a trust mark that can be issued or delegated.
type IssueSpec struct {
	Type  string `json:"type"`
	Life  int    `json:"life,omitempty"` // ms
	Ref   string `json:"ref,omitempty"`
	Logo  string `json:"logo,omitempty"`
	Extra J      `json:"extra,omitempty"`
	Incl  bool   `json:"incl,omitempty"`
	Deleg string `json:"deleg,omitempty"` // owner
}

func (m *OwnMark) min() time.Duration {
	if m.Min == 0 {
		return sec(10)
	}
	return sec(m.Min)
}

func (m *OwnMark) grace() time.Duration {
	if m.Grace == 0 {
		return time.Hour
	}
	return sec(m.Grace)
}

// fetched tells whether the mark is obtained from its issuer.
func (m *OwnMark) fetched() bool { return !m.Self && (m.Refresh || m.Init == nil) }

type ownClient struct {
	spec   *OwnSpec
	leaf   *oidfed.FederationLeaf
	ro     *oidfed.RequestObjectProducer
	tmi    *oidfed.TrustMarkIssuer
	tmo    *oidfed.TrustMarkOwner
	marks  []*OwnMark // as accepted
	born   time.Duration
	broken string
}

type issuedToken struct {
	raw  string
	op   *opResult
	info *oidfed.TrustMarkInfo
}

func (k *simKey) jwa() jwa.SignatureAlgorithm {
	if k.ec != nil {
		return jwa.ES256()
	}
	return jwa.EdDSA()
}

func oidcKey(id string) *simKey { return getKey(id + " oidc!es") }

func libJWKS(ks ...*simKey) (out jwks.JWKS) {
	if err := json.Unmarshal(mustJSON(jwksOf(ks...)), &out); err != nil {
		panic("harness: " + err.Error())
	}
	return
}

func (w *World) setupClients() {
	w.own = map[string]*ownClient{}
	w.shared = map[int]*sharedParams{}
	for i := range w.plan.Own {
		s := &w.plan.Own[i]
		n := w.nodes[s.ID]
		if n == nil {
			continue
		}
		c := &ownClient{spec: s, born: now()}
		w.own[s.ID] = c
		var md *oidfed.Metadata
		if m := n.metadata(); len(m) > 0 {
			md = &oidfed.Metadata{}
			if err := json.Unmarshal(mustJSON(m), md); err != nil {
				panic("harness: " + err.Error())
			}
		}
		k, ok := n.key(), oidcKey(s.ID)
		var err error
		c.leaf, err = oidfed.NewFederationLeaf(s.ID, append([]string{}, n.Hints...), w.libAnchors(s.Anchors), md,
			oidfed.NewEntityStatementSigner(k.signer(), k.jwa()), int64(s.Life), ok.signer(), ok.jwa(), nil)
		if err != nil {
			panic("harness: " + err.Error())
		}
		c.ro = oidfed.NewRequestObjectProducer(s.ID, ok.signer(), ok.jwa(), int64(s.ROLife))
		var owned []oidfed.OwnedTrustMark
		for _, o := range s.Owned {
			owned = append(owned, oidfed.OwnedTrustMark{ID: o.Type, DelegationLifetime: msec(o.Life), Ref: o.Ref, Extra: o.Extra})
		}
		dk := ownerKey(s.ID)
		c.tmo = oidfed.NewTrustMarkOwner(s.ID, oidfed.NewTrustMarkDelegationSigner(dk.signer(), dk.jwa()), owned)
	}
	for _, c := range w.own {
		s := c.spec
		k := w.nodes[s.ID].key()
		var specs []oidfed.TrustMarkSpec
		for _, t := range s.Issue {
			ts := oidfed.TrustMarkSpec{TrustMarkType: t.Type, Ref: t.Ref, LogoURI: t.Logo, Extra: t.Extra, IncludeExtraClaimsInInfo: t.Incl,
				Lifetime: unixtime.NewDurationInSeconds(float64(t.Life) / 1000)}
			if o := w.own[t.Deleg]; o != nil {
				if d, err := o.tmo.DelegationJWT(t.Type, s.ID); err == nil {
					ts.DelegationJWT = string(d)
				}
			}
			specs = append(specs, ts)
		}
		signer := oidfed.NewTrustMarkSigner(k.signer(), k.jwa())
		c.tmi = oidfed.NewTrustMarkIssuer(s.ID, signer, specs)
		for i := range s.Marks {
			m := &s.Marks[i]
			cfg := &oidfed.EntityConfigurationTrustMarkConfig{TrustMarkType: m.Type, TrustMarkIssuer: m.Issuer, SelfIssued: m.Self, Refresh: m.Refresh,
				MinLifetime: unixtime.NewDurationInSeconds(float64(m.Min)), RefreshGracePeriod: unixtime.NewDurationInSeconds(float64(m.Grace))}
			if m.Self {
				cfg.SelfIssuanceSpec = oidfed.TrustMarkSpec{Lifetime: unixtime.NewDurationInSeconds(float64(m.Life))}
			}
			if m.Init != nil {
				cfg.JWT = w.markJWT(m.Init)
			}
			if err := cfg.Verify(s.ID, w.nodes[s.ID].url("tm"), signer); err != nil {
				if !w.badInit(s.ID, m) {
					w.fail("C16", "the configuration of the trust mark %s of %s is rejected: %v", m.Type, s.ID, err)
				}
				w.probe("trust mark configurations rejected")
				continue
			}
			c.leaf.TrustMarks = append(c.leaf.TrustMarks, cfg)
			c.marks = append(c.marks, m)
		}
	}
}

// badInit tells whether the mark given in the configuration is none of its own.
func (w *World) badInit(id string, m *OwnMark) bool {
	if m.Init == nil {
		return m.Type == "" || (m.Issuer == "" && !m.Self)
	}
	j := decodeJWT(w.markJWT(m.Init))
	return j == nil || j.str("sub") != id || j.typ() != "trust-mark+jwt" || j.str("trust_mark_type") != m.Type
}

// ---- operations ----

func (w *World) execOwn(r *opResult) {
	c := w.own[r.op.A]
	if c == nil {
		r.err = "none"
		return
	}
	b, err := c.leaf.EntityConfigurationJWT()
	r.setErr(err)
	r.raw = string(b)
	if r.op.Kind == "publish" && err == nil {
		time.Sleep(3 * time.Microsecond) // it takes a while; times are written as floating point numbers
		w.publish(w.nodes[r.op.A], r.raw)
	}
}

// publish makes the node serve a configuration made by the code under test.
func (w *World) publish(n *node, raw string) {
	j := decodeJWT(raw)
	if j == nil {
		return
	}
	var before any
	if o := decodeJWT(n.static); o != nil {
		before = o.claims["trust_marks"]
	}
	first := n.static == ""
	if !first && now() >= n.staticExp {
		w.modes = append(w.modes, now()) // it had none for some time
	}
	n.static, n.staticIat, n.staticExp = raw, ofUnix(j.num("iat")), ofUnix(j.num("exp"))
	if first || !reflect.DeepEqual(before, j.claims["trust_marks"]) {
		v := n.verAt
		w.changed(n)
		n.verAt = v
	}
}

type sharedParams struct {
	m    map[string]any
	v    url.Values
	orig string
}

// raceMu orders what the harness itself hands from one operation to another.
var raceMu sync.Mutex

func (w *World) sharedFor(op *Op) *sharedParams {
	raceMu.Lock()
	defer raceMu.Unlock()
	if s := w.shared[op.Slot]; op.Slot != 0 && s != nil {
		return s
	}
	s := &sharedParams{m: map[string]any{}, v: url.Values{}}
	p, _ := op.J["params"].(map[string]any)
	for k, x := range p {
		s.m[k] = x
		if l, ok := strList(x); ok {
			s.v[k] = l
		} else {
			s.v.Set(k, fmt.Sprint(x))
		}
	}
	s.orig = s.print()
	if op.Slot != 0 {
		w.shared[op.Slot] = s
	}
	return s
}

func (s *sharedParams) print() string { return string(mustJSON(s.m)) + string(mustJSON(s.v)) }

func (w *World) execIssue(r *opResult) {
	op := r.op
	c := w.own[op.A]
	if c == nil {
		r.err = "none"
		return
	}
	var life []time.Duration
	if f, ok := op.J["life"].(float64); ok {
		life = append(life, time.Duration(f)*time.Millisecond)
	}
	typ := ""
	if len(op.Types) > 0 {
		typ = op.Types[0]
	}
	var b []byte
	var err error
	tok := &issuedToken{op: r}
	switch op.B {
	case "tm":
		tok.info, err = c.tmi.IssueTrustMark(typ, op.Sub, life...)
		if err == nil {
			b = []byte(tok.info.TrustMarkJWT)
			r.out = J{"info": toMap(tok.info)}
		}
	case "deleg":
		b, err = c.tmo.DelegationJWT(typ, op.Sub, life...)
	case "ro":
		s := w.sharedFor(op)
		p := c.leaf.RequestObjectProducer()
		if op.N == 1 {
			p = c.ro
		}
		if op.Slot == 0 { // else the shared map has to do
			s.m["aud"] = op.Sub
			s.orig = s.print()
		}
		b, err = p.RequestObject(s.m)
		if s.print() != s.orig {
			w.fail("C17 C21 C13", "op %d: making a request object changes the passed values to %s, were %s", r.idx, s.print(), s.orig)
		}
		r.out = J{"values": rejson(s.m)}
	case "ca":
		p := c.leaf.RequestObjectProducer()
		if op.N == 1 {
			p = c.ro
		}
		b, err = p.ClientAssertion(op.Sub)
	case "rr": // answers a resolve request
		res, e := oidfed.LocalMetadataResolver{}.ResolveResponsePayload(apimodel.ResolveRequest{Subject: op.Sub, TrustAnchor: anchorIDs(c.spec.Anchors)})
		if e != nil {
			r.err = "none"
			return
		}
		raws := func(p *oidfed.ResolveResponsePayload) (l []any) {
			for _, m := range p.TrustChain {
				l = append(l, string(m.RawJWT))
			}
			return
		}
		r.out = J{"metadata": rejson(res.Metadata), "chain": raws(&res), "marks": rejson(res.TrustMarks)}
		res.Extra = map[string]any{"x_note": "kept"}
		resp := oidfed.ResolveResponse{Issuer: op.A, Subject: op.Sub, IssuedAt: unixtime.Now(),
			ExpiresAt: unixtime.Unixtime{Time: time.Now().Add(10 * time.Minute)}, ResolveResponsePayload: res}
		b, err = c.leaf.EntityStatementSigner.ResolveResponseSigner().JWT(resp)
		if err == nil {
			back, e := oidfed.ParseResolveResponse(b)
			if e != nil {
				w.fail("C17", "op %d: the resolve response issued cannot be read again: %v", r.idx, e)
			} else {
				r.out["again"] = J{"metadata": rejson(back.Metadata), "chain": raws(&back.ResolveResponsePayload), "marks": rejson(back.TrustMarks), "extra": rejson(back.Extra),
					"iss": back.Issuer, "sub": back.Subject}
			}
		}
	case "stmt":
		exp := unixtime.Unixtime{Time: time.Now().Add(time.Hour)}
		b, err = c.leaf.SignEntityStatement(oidfed.EntityStatementPayload{Issuer: op.A, Subject: op.Sub, IssuedAt: unixtime.Now(), ExpiresAt: exp, JWKS: libJWKS(getKey("x"))})
	}
	r.setErr(err)
	r.raw = string(b)
	tok.raw = r.raw
	if op.N >= 0 && err == nil && op.J["slot"] != nil {
		raceMu.Lock()
		w.tokens[fmt.Sprint(op.J["slot"])] = tok
		raceMu.Unlock()
	}
}

// execRecheck lets the code under test verify what it issued before.
func (w *World) execRecheck(r *opResult) {
	raceMu.Lock()
	tok := w.tokens[fmt.Sprint(r.op.J["slot"])]
	raceMu.Unlock()
	if tok == nil {
		r.err = "none"
		return
	}
	iss := w.nodes[tok.op.op.A]
	key := iss.key()
	typ := tok.op.op.Types[0]
	info := &oidfed.TrustMarkInfo{TrustMarkType: typ, TrustMarkJWT: tok.raw}
	exps := []time.Duration{}
	add := func(raw string) *rawJWT {
		j := decodeJWT(raw)
		if j == nil {
			return nil
		}
		if j.claims["exp"] != nil {
			exps = append(exps, ofUnix(j.num("exp")))
		}
		return j
	}
	j := add(tok.raw)
	if j == nil {
		r.err = "none"
		return
	}
	var owner []oidfed.TrustMarkOwnerSpec
	spec := func(id string) {
		owner = []oidfed.TrustMarkOwnerSpec{{ID: id, JWKS: libJWKS(ownerKey(id))}}
	}
	switch tok.op.op.B {
	case "tm":
		if d := j.str("delegation"); d != "" && r.op.N != 2 {
			if dj := add(d); dj != nil {
				spec(dj.str("iss"))
			}
		}
		if r.op.N == 1 { // the object as it was issued
			info = tok.info
		}
	case "deleg":
		key = getKey("holder")
		spec(tok.op.op.A)
		info.TrustMarkJWT = signJWT(key, "trust-mark+jwt", J{"iss": j.str("sub"), "sub": "https://x.example.org", "trust_mark_type": typ, "iat": unixOf(tok.op.t0), "delegation": tok.raw})
	default:
		r.err = "none"
		return
	}
	t := now()
	want := ""
	for _, e := range exps {
		if d := e - t; d < 5*time.Millisecond && d > -5*time.Millisecond {
			r.err = "none"
			return
		} else if d < 0 {
			want = "expired"
		}
	}
	if t-tok.op.t1 < 2*time.Millisecond {
		r.err = "none"
		return
	}
	err := info.VerifyExternal(libJWKS(key), owner...)
	w.probe("issued tokens verified again")
	if (err == nil) != (want == "") {
		w.fail("C17", "op %d: verifying the %s issued at %v (expiring at %v) gives %v at %v", r.idx, tok.op.op.B, tok.op.t0, exps, err, t)
	}
	if owner != nil {
		if info.VerifyExternal(libJWKS(getKey("holder2")), owner...) == nil {
			w.fail("C17", "op %d: the %s is accepted with another issuer's key", r.idx, tok.op.op.B)
		}
	}
}

// ---- judgement ----

const jwtTol = time.Millisecond

// within checks issue and expiry time; life < 0 means none.
func (w *World) checkTimes(r *opResult, what string, j *rawJWT, life time.Duration, whole bool) {
	iat := ofUnix(j.num("iat"))
	lo, tol := r.t1-jwtTol, jwtTol
	if what != "entity configuration" {
		lo = r.t0 - jwtTol
	}
	if whole {
		lo -= time.Second
	}
	if j.claims["iat"] == nil || iat < lo || iat > r.t1+jwtTol {
		w.fail("C17", "op %d: the %s is issued at %v, but it is made at %v", r.idx, what, iat, r.t1)
	}
	if life < 0 {
		if j.claims["exp"] != nil {
			w.fail("C17", "op %d: the %s expires at %v, but no lifetime is set", r.idx, what, ofUnix(j.num("exp")))
		}
		return
	}
	if j.claims["exp"] == nil {
		w.fail("C17", "op %d: the %s does not expire, should after %v", r.idx, what, life)
		return
	}
	if d := ofUnix(j.num("exp")) - iat - life; d > tol || d < -tol {
		w.fail("C17", "op %d: the %s lives for %v, should for %v", r.idx, what, ofUnix(j.num("exp"))-iat, life)
	}
}

func (w *World) checkIssued(r *opResult, what string, j *rawJWT, typ string, key *simKey, claims J) bool {
	if j == nil {
		w.fail("C17", "op %d: the %s is no token: %q", r.idx, what, r.raw)
		return false
	}
	if typ != "" && j.typ() != typ {
		w.fail("C17", "op %d: the %s has the type %q", r.idx, what, j.typ())
	}
	if !j.verifiedBy(rejson(jwksOf(key))) {
		w.fail("C17", "op %d: the %s is not signed with the configured key", r.idx, what)
	}
	for _, k := range sortedKeys(claims) {
		if g, x := normal(j.claims[k]), normal(rejson(claims[k])); !reflect.DeepEqual(g, x) {
			w.fail("C17", "op %d: %s of the %s is %s, should be %s", r.idx, k, what, mustJSON(j.claims[k]), mustJSON(claims[k]))
		}
	}
	return true
}

func (w *World) freshID(r *opResult, what string, j *rawJWT) {
	id := j.str("jti")
	if id == "" {
		w.fail("C17", "op %d: the %s has no jti", r.idx, what)
		return
	}
	if w.sharedFor(r.op).m["jti"] != nil { // as given
		return
	}
	if o, ok := w.jtis[id]; ok {
		w.fail("C17", "op %d: the %s has the same jti as the one of op %d", r.idx, what, o)
	}
	w.jtis[id] = r.idx
}

func (w *World) judgeIssue(r *opResult) {
	op := r.op
	if r.err == "none" {
		return
	}
	c := w.own[op.A]
	n := w.nodes[op.A]
	typ := ""
	if len(op.Types) > 0 {
		typ = op.Types[0]
	}
	find := func(l []IssueSpec) *IssueSpec { // the last one counts
		for i := len(l) - 1; i >= 0; i-- {
			if l[i].Type == typ {
				return &l[i]
			}
		}
		return nil
	}
	lifeOf := func(s *IssueSpec) time.Duration {
		l := msec(s.Life)
		if f, ok := op.J["life"].(float64); ok {
			l = time.Duration(f) * time.Millisecond
		}
		if l == 0 {
			return -1
		}
		return l
	}
	w.probe("tokens issued")
	j := decodeJWT(r.raw)
	switch op.B {
	case "tm", "deleg":
		l, what, hdr, key := c.spec.Issue, "trust mark", "trust-mark+jwt", n.key()
		if op.B == "deleg" {
			l, what, hdr, key = c.spec.Owned, "delegation", "trust-mark-delegation+jwt", ownerKey(op.A)
		}
		s := find(l)
		if s == nil {
			if r.err == "" {
				w.fail("C17", "op %d: a %s of the unknown type %s is issued", r.idx, what, typ)
			}
			return
		}
		if r.err != "" {
			w.fail("C17", "op %d: the %s is not issued: %s", r.idx, what, r.err)
			return
		}
		claims := J{"iss": op.A, "sub": op.Sub, "trust_mark_type": typ}
		if s.Ref != "" {
			claims["ref"] = s.Ref
		}
		if s.Logo != "" && op.B == "tm" {
			claims["logo_uri"] = s.Logo
		}
		for k, v := range s.Extra {
			claims[k] = v
		}
		if w.checkIssued(r, what, j, hdr, key, claims) {
			w.checkTimes(r, what, j, lifeOf(s), false)
		}
		if op.B == "tm" {
			info, _ := r.out["info"].(map[string]any)
			if info["trust_mark_type"] != typ || info["trust_mark"] != r.raw {
				w.fail("C17", "op %d: the trust mark comes with %s", r.idx, mustJSON(info))
			}
		}
	case "ro", "ca":
		what := map[string]string{"ro": "request object", "ca": "client assertion"}[op.B]
		vals, _ := r.out["values"].(map[string]any)
		if op.B == "ro" && vals["aud"] == nil {
			if r.err == "" {
				w.fail("C17", "op %d: a request object without audience is made", r.idx)
			}
			return
		}
		if r.err != "" {
			w.fail("C17", "op %d: the %s is not issued: %s", r.idx, what, r.err)
			return
		}
		claims := J{"iss": op.A, "aud": op.Sub}
		if op.B == "ro" {
			for k, v := range vals {
				switch k {
				case "iat", "exp", "sub", "client_secret":
				default:
					claims[k] = v
				}
			}
			claims["iss"], claims["client_id"] = op.A, op.A
		} else {
			claims["sub"] = op.A
		}
		if w.checkIssued(r, what, j, "", oidcKey(op.A), claims) {
			life := sec(60)
			if op.N == 1 {
				life = sec(c.spec.ROLife)
			}
			w.checkTimes(r, what, j, life, true)
			w.freshID(r, what, j)
			if op.B == "ro" && (j.claims["sub"] != nil || j.claims["client_secret"] != nil) {
				w.fail("C17", "op %d: the request object has a subject or a secret", r.idx)
			}
		}
	case "rr":
		if r.err != "" {
			w.fail("C17", "op %d: the resolve response is not signed: %s", r.idx, r.err)
			return
		}
		if !w.checkIssued(r, "resolve response", j, "resolve-response+jwt", n.key(), J{"iss": op.A, "sub": op.Sub, "x_note": "kept"}) {
			return
		}
		w.probe("resolve responses issued")
		w.checkTimes(r, "resolve response", j, 10*time.Minute, false)
		meta, _ := r.out["metadata"].(map[string]any)
		m, _ := j.claims["metadata"].(map[string]any)
		if d := metaDiff(normalMeta(m), normalMeta(meta)); d != "" {
			w.fail("C17 C18", "op %d: the resolve response has other metadata than resolved: %s", r.idx, d)
		}
		same := func(what string, a, b any) {
			if !reflect.DeepEqual(normal(rejson(a)), normal(rejson(b))) {
				w.fail("C17 C18", "op %d: %s of the resolve response is %s, was %s", r.idx, what, mustJSON(a), mustJSON(b))
			}
		}
		same("trust_chain", j.claims["trust_chain"], r.out["chain"])
		same("trust_marks", j.claims["trust_marks"], r.out["marks"])
		if again, ok := r.out["again"].(J); ok {
			am, _ := again["metadata"].(map[string]any)
			if d := metaDiff(normalMeta(am), normalMeta(meta)); d != "" {
				w.fail("C17 C18", "op %d: the resolve response read again has other metadata: %s", r.idx, d)
			}
			same("trust_chain read again", again["chain"], r.out["chain"])
			same("trust_marks read again", again["marks"], r.out["marks"])
			same("the rest", again["extra"], J{"x_note": "kept"})
			same("issuer and subject", []any{again["iss"], again["sub"]}, []any{op.A, op.Sub})
		}
	case "stmt":
		if r.err != "" {
			w.fail("C17", "op %d: the statement is not signed: %s", r.idx, r.err)
			return
		}
		if w.checkIssued(r, "statement", j, "entity-statement+jwt", n.key(), J{"iss": op.A, "sub": op.Sub}) {
			w.checkTimes(r, "statement", j, time.Hour, false)
		}
	}
}

// ownMark reads the request a mark was fetched with.
func (w *World) fetchesOf(own string, m *OwnMark) (out []*request) {
	for _, q := range w.reqs {
		if q.what != "tm" || q.host != m.Issuer {
			continue
		}
		u, err := url.Parse(q.url)
		if err != nil {
			continue
		}
		p := u.Query()
		if p.Get("sub") == own && p.Get("trust_mark_type") == m.Type {
			out = append(out, q)
		}
	}
	return
}

// usableMark decides whether a string is a mark of that entity and type which can be
// used at t; the expiry is 0 if there is none.
func usableMark(raw, own, typ string, t time.Duration) (exp time.Duration, ok bool) {
	j := decodeJWT(raw)
	if j == nil || j.typ() != "trust-mark+jwt" || j.str("sub") != own || j.str("trust_mark_type") != typ || ofUnix(j.num("iat")) > t {
		return 0, false
	}
	if j.claims["exp"] != nil {
		exp = ofUnix(j.num("exp"))
		if exp <= t {
			return exp, false
		}
	}
	return exp, true
}

func goodFetch(q *request, own, typ string) (time.Duration, bool) {
	if q.done == 0 || q.err || q.status != 200 {
		return 0, false
	}
	switch q.fault {
	case "", "dup", "stall", "stale":
	default:
		return 0, false
	}
	return usableMark(q.body, own, typ, q.done)
}

// lastBad is the last time up to t at which the issuer could not be relied on.
func (w *World) lastBad(own, issuer string, t time.Duration) (time.Duration, bool) {
	n := w.node(issuer)
	if n == nil || !n.TMEnd || n.Byz != "" || n.NoMeta || n.TMMode != "" || w.ecState(issuer) != must {
		return 0, false
	}
	var last time.Duration
	up := func(d time.Duration) {
		if d > last && d <= t {
			last = d
		}
	}
	for _, d := range w.modes {
		up(d)
	}
	for _, d := range w.changes {
		up(d)
	}
	if n.movedUntil > t { // the configuration in use names the old endpoint
		return 0, false
	}
	up(n.movedUntil)
	for _, q := range w.reqs {
		if q.host != issuer || q.fault == "" || q.fault == "dup" || q.at > t {
			continue
		}
		if q.done == 0 || q.done > t {
			return t, true
		}
		up(q.done)
	}
	return last, true
}

func (w *World) judgeOwn(r *opResult) {
	if r.err == "none" {
		return
	}
	op := r.op
	c := w.own[op.A]
	n := w.nodes[op.A]
	if r.err != "" {
		w.fail("C16 C17", "op %d: no configuration is produced: %s", r.idx, r.err)
		return
	}
	w.probe("configurations published")
	j := decodeJWT(r.raw)
	claims := J{"iss": op.A, "sub": op.A, "jwks": nil, "authority_hints": nil}
	delete(claims, "jwks")
	if len(n.Hints) > 0 {
		claims["authority_hints"] = n.Hints
	}
	if !w.checkIssued(r, "entity configuration", j, "entity-statement+jwt", n.key(), claims) {
		return
	}
	if !j.verifiedBy(j.claims["jwks"]) {
		w.fail("C17", "op %d: the configuration does not hold the key it is signed with", r.idx)
	}
	life := sec(c.spec.Life)
	if c.spec.Life <= 0 {
		life = sec(86400)
	}
	w.checkTimes(r, "entity configuration", j, life, false)
	m, _ := j.claims["metadata"].(map[string]any)
	if d := metaDiff(m, jsonMeta(n.metadata())); d != "" {
		w.fail("C17", "op %d: the configuration has other metadata than configured: %s", r.idx, d)
	}
	// trust marks
	bad := func(f string, a ...any) {
		w.fail("C16", "op %d (configuration of %s at %v): "+f, append([]any{r.idx, op.A, r.t1}, a...)...)
	}
	count := map[string]int{}
	for _, m := range c.marks {
		count[m.Type]++
	}
	shown := map[string][]*rawJWT{}
	for _, m := range shownMarks(j.claims) {
		mj := decodeJWT(m.jwt)
		if mj == nil {
			bad("the trust mark %s is no token", m.typ)
			continue
		}
		w.probe("trust marks published")
		if mj.typ() != "trust-mark+jwt" || mj.str("trust_mark_type") != m.typ {
			bad("a trust mark of the type %s is shown for %s", mj.str("trust_mark_type"), m.typ)
		}
		if mj.str("sub") != op.A {
			bad("the trust mark %s of %s is shown", m.typ, mj.str("sub"))
		}
		if mj.claims["exp"] != nil && ofUnix(mj.num("exp")) <= r.t1-jwtTol {
			bad("the trust mark %s expired at %v", m.typ, ofUnix(mj.num("exp")))
		}
		shown[m.typ] = append(shown[m.typ], mj)
		if len(shown[m.typ]) > count[m.typ] {
			bad("the trust mark %s is shown %d times, but configured %d times", m.typ, len(shown[m.typ]), count[m.typ])
		}
	}
	quick := r.t1-r.t0 <= sec(1)
	for _, m := range c.marks {
		if count[m.Type] > 1 {
			continue
		}
		var mj *rawJWT
		if l := shown[m.Type]; len(l) > 0 {
			mj = l[0]
		}
		switch {
		case m.Self:
			if mj == nil {
				if m.Init == nil || m.Refresh { // else static
					bad("the self issued trust mark %s is missing", m.Type)
				}
				continue
			}
			if m.Init != nil && mj.raw == w.markJWT(m.Init) {
				continue
			}
			cr := *r
			cr.raw = mj.raw
			w.checkIssued(&cr, "self issued trust mark", mj, "trust-mark+jwt", n.key(), J{"iss": op.A})
			if life := ofUnix(mj.num("exp")) - ofUnix(mj.num("iat")); m.Life > 0 && (life > sec(m.Life)+jwtTol || life < sec(m.Life)-jwtTol) {
				w.fail("C17", "op %d: the self issued trust mark lives for %v, not for %ds", r.idx, life, m.Life)
			}
		case !m.fetched():
			alive := m.Init.Exp == 0 || sec(m.Init.Exp) > r.t1+jwtTol
			if alive && mj == nil {
				bad("the configured trust mark %s is missing", m.Type)
			}
		default:
			// what it has
			var lastQ *request
			var have, haveExp = false, time.Duration(0)
			if m.Init != nil {
				if m.Init.Exp == 0 || sec(m.Init.Exp) > r.t1+sec(1) {
					have, haveExp = true, sec(m.Init.Exp)
				}
			}
			fl := w.fetchesOf(op.A, m)
			for _, q := range fl {
				if q.at < c.born || q.done == 0 || q.done > r.t1+jwtTol {
					continue
				}
				if q.done > r.t0-jwtTol {
					if exp, ok := goodFetch(q, op.A, m.Type); ok && exp != 0 && exp <= r.t1+sec(1) {
						have = false // replaced by one that did not last
						break
					}
					continue
				}
				if exp, ok := goodFetch(q, op.A, m.Type); ok && (lastQ == nil || q.done >= lastQ.done) {
					lastQ = q
					have, haveExp = exp == 0 || exp > r.t1+sec(1), exp
				}
			}
			if is := w.nodes[m.Issuer]; is != nil && is.Hostile != nil {
				have = false // whether what it sent is a trust mark is not modelled
			}
			if have {
				w.probe("trust marks in hand")
				if mj == nil {
					bad("the trust mark %s is missing, although the current one is valid until %v (0: for ever)", m.Type, haveExp)
				}
			}
			iss := w.nodes[m.Issuer]
			last, ok := w.lastBad(op.A, m.Issuer, r.t1)
			if ok && r.t0 >= last+sec(61) && (iss.TMLife == 0 || sec(iss.TMLife) >= m.min()+sec(75)) && r.t1-r.t0 <= m.min()-sec(1) {
				w.probe("trust marks of good issuers expected")
				if mj == nil {
					bad("the trust mark %s is missing, although its issuer %s is able to deliver it since %v", m.Type, m.Issuer, last)
				}
			}
			// renewal
			if mj != nil && quick && mj.claims["exp"] != nil {
				rem := ofUnix(mj.num("exp")) - r.t0
				if rem > m.min()+sec(2) && rem < m.grace()-sec(2) {
					w.renewals = append(w.renewals, renewal{r, m, op.A, c.born, false})
				} else if rem < m.min()-sec(2) && ofUnix(mj.num("iat")) < r.t0-sec(2) {
					w.renewals = append(w.renewals, renewal{r, m, op.A, c.born, true})
				}
			}
		}
	}
}

type renewal struct {
	r    *opResult
	m    *OwnMark
	own  string
	born time.Duration
	wait bool // it has to be renewed before the configuration is given
}

// checkOwnHistory looks at how often issuers were asked.
func (w *World) checkOwnHistory() {
	restart := func(a, b time.Duration) bool {
		for _, t := range w.restarts {
			if t >= a && t <= b {
				return true
			}
		}
		return false
	}
	for _, x := range w.renewals {
		r := x.r
		if is := w.nodes[x.m.Issuer]; restart(r.t0, r.t1+sec(2)) || (is != nil && (is.Hostile != nil || !is.TMEnd)) {
			continue
		}
		recent, asked, late := false, false, false
		for _, q := range w.reqs {
			if q.host != x.m.Issuer || (q.what != "tm" && q.what != "ec") {
				continue
			}
			if q.at >= r.t0 {
				if q.at <= r.t1+sec(1) {
					asked = true
				}
				continue
			}
			if q.at >= x.born && (q.at >= r.t0-sec(62) || q.done == 0 || q.done >= r.t0-sec(62)) {
				recent = true
			}
		}
		if recent {
			continue
		}
		for _, q := range w.fetchesOf(x.own, x.m) {
			if q.tag == r.tag && q.at <= r.t1 && (q.done == 0 || q.done > r.t1) {
				late = true
			}
		}
		w.probe("renewals due")
		if x.wait {
			w.probe("renewals to be awaited")
			if !asked || late {
				w.fail("C16", "op %d (configuration of %s at %v): the trust mark %s has less than the minimum lifetime of %v left, but it is given without waiting for its renewal", r.idx, x.own, r.t1, x.m.Type, x.m.min())
			}
			continue
		}
		if !asked {
			w.fail("C16", "op %d (configuration of %s at %v): the trust mark %s expires within the grace period of %v, but no renewal is requested", r.idx, x.own, r.t1, x.m.Type, x.m.grace())
		}
	}
	type attempt struct {
		tag    uint64
		t0     time.Duration
		first  time.Duration
		failed bool
	}
	for i := range w.plan.Own {
		s := &w.plan.Own[i]
		for k := range s.Marks {
			m := &s.Marks[k]
			if is := w.nodes[m.Issuer]; !m.fetched() || (is != nil && is.Hostile != nil) {
				continue
			}
			var as []*attempt
			by := map[uint64]*attempt{}
			for _, q := range w.fetchesOf(s.ID, m) {
				if q.tag == 0 || int(q.tag) > len(w.results) {
					continue
				}
				// results may hold fewer entries than the plan has operations
				var r *opResult
				for _, x := range w.results {
					if x.tag == q.tag {
						r = x
					}
				}
				if r == nil || (r.op.Kind != "own" && r.op.Kind != "publish") {
					continue
				}
				a := by[q.tag]
				if a == nil {
					a = &attempt{tag: q.tag, t0: r.t0, first: q.at, failed: true}
					by[q.tag] = a
					as = append(as, a)
				}
				if _, ok := goodFetch(q, s.ID, m.Type); ok {
					a.failed = false
				}
			}
			for i := 1; i < len(as); i++ {
				a, b := as[i-1], as[i]
				if !a.failed || restart(a.t0, b.first) {
					continue
				}
				w.probe("failing issuers asked again")
				if d := b.first - a.t0; d < sec(60)-jwtTol {
					w.fail("C16", "%s asks the failing issuer %s for %s at %v and again at %v", s.ID, m.Issuer, m.Type, a.first, b.first)
				}
			}
		}
	}
	// an issuer whose configuration was never obtained
	for i := range w.plan.Own {
		s := &w.plan.Own[i]
		per := map[string]int{}
		for k := range s.Marks {
			if m := &s.Marks[k]; m.fetched() && m.Issuer != s.ID {
				per[m.Issuer]++
			}
		}
		for _, iss := range sortedKeys(per) {
			if is := w.nodes[iss]; is != nil && is.Hostile != nil {
				continue
			}
			var as []*attempt
			seen := map[uint64]bool{}
			ok := true
			for _, q := range w.reqs {
				if q.host != iss || q.what != "ec" {
					continue
				}
				if q.status == 200 && !q.err {
					ok = false
				}
				if !ok || seen[q.tag] {
					continue
				}
				seen[q.tag] = true
				for _, x := range w.results {
					if x.tag == q.tag && (x.op.Kind == "own" || x.op.Kind == "publish") && x.op.A == s.ID {
						as = append(as, &attempt{tag: q.tag, t0: x.t0, first: q.at})
					}
				}
			}
			k := per[iss]
			for i := k; i < len(as); i++ {
				a, b := as[i-k], as[i]
				if restart(a.t0, b.first) {
					continue
				}
				if d := b.first - a.t0; d < sec(60)-jwtTol {
					w.fail("C16", "%s asks the unreachable issuer %s for %d marks %d times between %v and %v", s.ID, iss, k, k+1, a.first, b.first)
				}
			}
		}
	}
}

func jsonMeta(m map[string]J) map[string]any {
	x, _ := rejson(m).(map[string]any)
	return normalMeta(x)
}

func isOwnOp(k string) bool { return k == "own" || k == "publish" }
