package main

import (
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
)

// epoch is the time at which every simulation starts.
var epoch = time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC)

func now() time.Duration { return time.Since(epoch) }
func secs(d time.Duration) float64 {
	return float64(d/time.Second) + float64(d%time.Second)/1e9
}
func unixOf(d time.Duration) float64 { return float64(epoch.Unix()) + secs(d) }
func ofUnix(f float64) time.Duration {
	return time.Duration((f - float64(epoch.Unix())) * 1e9)
}
func sec(n int) time.Duration  { return time.Duration(n) * time.Second }
func msec(n int) time.Duration { return time.Duration(n) * time.Millisecond }

type node struct {
	NodeSpec
	gen        int
	ahead      int           // generations its superiors do not know
	moved      int           // how often its endpoints were moved
	movedUntil time.Duration // until then configurations with the former endpoints may be in use
	verAt      time.Duration // statements issued from here on are of the current state
	gone       bool
	// a configuration made by the code under test
	static               string
	staticIat, staticExp time.Duration
}

func (n *node) keyName(gen int) string {
	s := fmt.Sprintf("%s#%d", n.ID, gen)
	if n.Alg == "ES256" {
		s += "!es"
	}
	return s
}
func (n *node) key() *simKey { return getKey(n.keyName(n.gen)) }

// keysOf are all keys of a generation: the one for everything and, if there is one,
// the one for statements about others.
func (n *node) keysOf(gen int) []*simKey {
	ks := []*simKey{getKey(n.keyName(gen))}
	if n.Key2 != "" {
		s := fmt.Sprintf("%s#%d second", n.ID, gen)
		if (n.Alg == "ES256") == (n.Key2 == "same") {
			s += "!es"
		}
		ks = append(ks, getKey(s))
	}
	return ks
}
func (n *node) keys() []*simKey { return n.keysOf(n.gen) }

// attested are the keys its superiors know: those of the generation before if it changed
// its keys on its own.
func (n *node) attested() []*simKey { return n.keysOf(n.gen - n.ahead) }

func (n *node) key2() *simKey { ks := n.keys(); return ks[len(ks)-1] }

// issued is a token some party of the federation served.
type issued struct {
	raw      string
	kind     string // ec, sub, tm, ...
	by       string // serving entity
	sub      string
	iat, exp time.Duration
	served   time.Duration // first time
	ver      time.Duration
}

// request is one entry of the network log.
type request struct {
	seq     int
	at      time.Duration
	done    time.Duration
	tag     uint64
	base    string
	err     bool   // the caller got a transport error
	host    string // entity
	what    string
	arg     string
	query   string // as sent
	method  string
	url     string
	fault   string
	status  int
	body    string
	reqBody string
	reply   string
	hostile bool
}

// World is the simulated federation and everything observed during a run.
type World struct {
	plan    *Plan
	prop    string
	nodes   map[string]*node
	order   []string
	routes  map[string]route
	ledger  map[string]*issued
	reqs    []*request
	occ     map[string]int
	faults  map[string]int // fired, by kind
	faultAt []faultEvent
	changes []time.Duration
	lies    []time.Duration // damaged listings that can still be read: nobody can tell
	modes   []time.Duration
	// latest expiry of statements that predate the latest change
	oldUntil     time.Duration
	poison       time.Duration // a forged statement may be cached until then
	fails        []failure
	cache        *simCache
	redis        *fakeRedis
	stalls       []stall
	cacheFaults  []time.Duration
	calm         bool // hostile parties are honest
	noRecord     bool
	crashed      int
	restarts     []time.Duration
	probes       map[string]int
	queries      map[string]bool
	history      map[string][]*request
	trace        []string
	tmSeq        int
	issuedTM     map[string][]*issued
	stats        runStats
	results      []*opResult
	own          map[string]*ownClient
	shared       map[int]*sharedParams
	deriving     map[uint64]time.Duration // expiry of the chain a task works on, by tag
	smartAnchors map[int][]string
	collectors   map[string]oidfed.EntityCollector
	tokens       map[string]*issuedToken
	jtis         map[string]int
	renewals     []renewal
	reuse        map[int]*oidfed.TrustResolver // nil while in use
	kept         []keptChain
}

type faultEvent struct {
	at   time.Duration
	host string
	kind string
}

type route struct {
	n     *node
	what  string
	moved int // how often the endpoints had been moved
}

type failure struct {
	Props []string `json:"props"`
	Msg   string   `json:"msg"`
}

func (w *World) fail(props, format string, args ...any) {
	if w.prop == "C20" && w.afflicted(props, format) {
		props += " C20" // a hostile party affects what does not depend on it
	}
	if w.prop == "C17" && len(w.own) > 0 && (strings.Contains(props, "C04") || strings.Contains(props, "C02")) {
		props += " C17" // what was published is not accepted
	}
	if len(w.fails) < 50 {
		w.fails = append(w.fails, failure{strings.Fields(props), fmt.Sprintf("t=%v ", now()) + fmt.Sprintf(format, args...)})
	}
}

func (w *World) probe(name string) { w.probes[name]++ }

const ecSuffix = "/.well-known/openid-federation"

func newWorld(p *Plan) *World {
	w := &World{plan: p, prop: p.Prop, nodes: map[string]*node{}, routes: map[string]route{}, ledger: map[string]*issued{},
		occ: map[string]int{}, faults: map[string]int{}, probes: map[string]int{}, queries: map[string]bool{},
		history: map[string][]*request{}, issuedTM: map[string][]*issued{}, tokens: map[string]*issuedToken{}, jtis: map[string]int{}}
	for _, s := range p.Nodes {
		n := &node{NodeSpec: *clonePlan(&Plan{Nodes: []*NodeSpec{s}}).Nodes[0]}
		w.nodes[n.ID] = n
		w.order = append(w.order, n.ID)
	}
	for _, id := range w.order {
		n := w.nodes[id]
		base := strings.TrimSuffix(n.ID, "/")
		w.routes[base+ecSuffix] = route{n: n, what: "ec"}
		for _, x := range []string{"token", "authz"} {
			w.routes[base+"/"+x] = route{n: n, what: x}
		}
		w.endpoints(n)
	}
	return w
}

// endpoints adds the current federation endpoints of the node to the network.
func (w *World) endpoints(n *node) {
	for _, x := range []string{"fetch", "list", "resolve", "collect", "tm"} {
		w.routes[n.path(x)] = route{n, x, n.moved}
	}
}

func (n *node) path(what string) string {
	u := strings.TrimSuffix(n.ID, "/") + "/" + what
	if n.moved > 0 && what != "token" && what != "authz" {
		u += fmt.Sprint("/v", n.moved)
	}
	return u
}

// url is an endpoint of the node.
func (n *node) url(what string) string {
	u := n.path(what)
	if n.Tenant != "" {
		u += "?" + n.Tenant
	}
	return u
}

// window gives issue and expiry time of what the node signs at t.
func (n *node) window(t time.Duration, life int) (time.Duration, time.Duration) {
	iat := t.Truncate(time.Second)
	if n.Reissue > 0 {
		r := sec(n.Reissue)
		iat = t / r * r
	}
	if n.verAt > iat {
		iat = n.verAt
	}
	iat += sec(n.Skew)
	return iat, iat + sec(life)
}

// metadata is what the node publishes about itself.
func (n *node) metadata() map[string]J {
	m := map[string]J{}
	for t, j := range n.Meta {
		c := J{}
		for k, v := range j {
			c[k] = v
		}
		m[t] = c
	}
	fe := m["federation_entity"]
	if fe == nil {
		fe = J{}
	}
	if n.Auth && !n.NoFetch {
		fe["federation_fetch_endpoint"] = n.url("fetch")
	}
	if n.Auth && !n.NoList {
		fe["federation_list_endpoint"] = n.url("list")
	}
	if n.Resolve != "" {
		fe["federation_resolve_endpoint"] = n.url("resolve")
	}
	if n.Collect != "" {
		fe["federation_collection_endpoint"] = n.url("collect")
	}
	if n.TMEnd {
		fe["federation_trust_mark_endpoint"] = n.url("tm")
	}
	if len(fe) > 0 || n.Auth {
		m["federation_entity"] = fe
	}
	return m
}

func (n *node) types() []string {
	out := []string{}
	for t := range n.metadata() {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

func (w *World) node(id string) *node {
	n := w.nodes[id]
	if n == nil || n.gone {
		return nil
	}
	return n
}

func attackerKey(n *node) *simKey { return getKey("attacker@kidof:" + n.keyName(n.gen)) }

// entityConfiguration builds the entity configuration the node serves at t.
func (w *World) entityConfiguration(n *node, t time.Duration) string {
	if n.static != "" {
		return w.record("ec", n, n.ID, n.static, n.staticIat, n.staticExp)
	}
	iat, exp := n.window(t, n.Life)
	c := J{"iss": n.ID, "sub": n.ID, "iat": unixOf(iat), "exp": unixOf(exp), "jwks": jwksOf(n.keys()...)}
	if len(n.Hints) > 0 {
		c["authority_hints"] = n.Hints
	}
	if !n.NoMeta {
		if m := n.metadata(); len(m) > 0 {
			c["metadata"] = m
		}
	}
	if len(n.Marks) > 0 {
		tms := []any{}
		for i := range n.Marks {
			mk := &n.Marks[i]
			ty := mk.Type
			if mk.InfoTyp != "" {
				ty = mk.InfoTyp
			}
			tms = append(tms, J{"trust_mark_type": ty, "trust_mark": w.markJWT(mk)})
		}
		c["trust_marks"] = tms
	}
	if n.TMIss != nil {
		c["trust_mark_issuers"] = n.TMIss
	}
	if n.TMOwn != nil {
		o := J{}
		for ty, id := range n.TMOwn {
			o[ty] = J{"sub": id, "jwks": jwksOf(ownerKey(id))}
		}
		c["trust_mark_owners"] = o
	}
	for k, v := range n.Extra {
		c[k] = v
	}
	key, typ := n.key(), "entity-statement+jwt"
	switch n.Byz {
	case "badsig", "selfkey", "none":
		w.makeEvil(c)
	}
	switch n.Byz {
	case "badsig":
		key = attackerKey(n)
	case "selfkey":
		key = attackerKey(n)
		c["jwks"] = jwksOf(key)
	case "addkey":
		key = attackerKey(n)
		c["jwks"] = jwksOf(append(n.keys(), key)...)
	case "iss":
		c["iss"] = w.other(n.ID)
	case "sub":
		c["sub"] = w.other(n.ID)
	case "idswap":
		o := w.other(n.ID)
		c["iss"], c["sub"] = o, o
	case "typ":
		typ = "JWT"
	case "notyp":
		typ = ""
	case "expired":
		iat, exp = t-2*time.Hour, t-time.Hour
		c["iat"], c["exp"] = unixOf(iat), unixOf(exp)
	case "justexpired":
		iat, exp = t-2*time.Hour, t-2*time.Second
		c["iat"], c["exp"] = unixOf(iat), unixOf(exp)
	case "future":
		iat, exp = t+time.Hour, t+2*time.Hour
		c["iat"], c["exp"] = unixOf(iat), unixOf(exp)
	case "none":
		return w.record("ec", n, n.ID, unsignedJWT(typ, c), iat, exp)
	case "nojwks":
		delete(c, "jwks")
	}
	return w.record("ec", n, n.ID, signJWT(key, typ, c), iat, exp)
}

// other gives another entity's id (the first trust anchor like one if possible).
func (w *World) other(id string) string {
	for _, o := range w.order {
		if o != id && w.nodes[o].Auth && len(w.nodes[o].Hints) == 0 {
			return o
		}
	}
	for _, o := range w.order {
		if o != id {
			return o
		}
	}
	return "https://other.example.net"
}

func (n *node) sub(id string) *SubSpec {
	for _, s := range n.Subs {
		if s.ID == id {
			return s
		}
	}
	return nil
}

func (w *World) subordinateStatement(n *node, s *SubSpec, t time.Duration) string {
	iat, exp := n.window(t, s.Life)
	c := J{"iss": n.ID, "sub": s.ID, "iat": unixOf(iat), "exp": unixOf(exp), "source_endpoint": n.url("fetch")}
	sn := w.nodes[s.ID]
	switch {
	case s.Keys == "other":
		c["jwks"] = jwksOf(getKey("somebody@kidof:" + s.ID + "#0"))
	case sn == nil:
		c["jwks"] = jwksOf(getKey(s.ID + "#0"))
	case s.Keys == "both":
		c["jwks"] = jwksOf(append([]*simKey{getKey("somebody@kid:else")}, sn.attested()...)...)
	case s.Keys == "ec":
		c["jwks"] = jwksOf(sn.attested()[0])
	case s.Keys == "st":
		ks := sn.attested()
		c["jwks"] = jwksOf(ks[len(ks)-1])
	default:
		c["jwks"] = jwksOf(sn.attested()...)
	}
	if s.Constr != nil {
		c["constraints"] = s.Constr
	}
	if s.Policy != nil {
		c["metadata_policy"] = s.Policy
	}
	for k, v := range s.Extra {
		c[k] = v
	}
	key, typ := n.key2(), "entity-statement+jwt"
	switch s.Byz {
	case "badsig":
		key = attackerKey(n)
	case "stolen": // signed by the subordinate itself
		if sn != nil {
			key = getKey(sn.keyName(sn.gen) + "@kidof:" + n.keyName(n.gen))
			if sn.Alg != "ES256" {
				key = &simKey{name: key.name, alg: sn.key().alg, kid: n.key().kid, ed: sn.key().ed, ec: sn.key().ec}
			}
		}
	case "iss":
		c["iss"] = w.other(n.ID)
	case "sub":
		c["sub"] = w.other(s.ID)
	case "typ":
		typ = "JWT"
	case "none":
		return w.record("sub", n, s.ID, unsignedJWT(typ, c), iat, exp)
	case "expired":
		iat, exp = t-2*time.Hour, t-time.Hour
		c["iat"], c["exp"] = unixOf(iat), unixOf(exp)
	case "justexpired":
		iat, exp = t-2*time.Hour, t-2*time.Second
		c["iat"], c["exp"] = unixOf(iat), unixOf(exp)
	case "future":
		iat, exp = t+time.Hour, t+2*time.Hour
		c["iat"], c["exp"] = unixOf(iat), unixOf(exp)
	case "nojwks":
		delete(c, "jwks")
	case "self":
		if sn != nil {
			return w.entityConfiguration(sn, t)
		}
	}
	return w.record("sub", n, s.ID, signJWT(key, typ, c), iat, exp)
}

func ownerKey(id string) *simKey { return getKey("owner of marks " + id) }

// markJWT builds a trust mark.
func (w *World) markJWT(mk *MarkSpec) string {
	c := J{"iss": mk.Issuer, "sub": mk.Sub, "trust_mark_type": mk.Type, "iat": unixOf(sec(mk.Iat))}
	if mk.Exp != 0 {
		c["exp"] = unixOf(sec(mk.Exp))
	}
	if mk.Deleg != "" {
		d := J{"iss": mk.Deleg, "sub": mk.Issuer, "trust_mark_type": mk.Type, "iat": unixOf(sec(mk.DelIat))}
		if mk.DelExp != 0 {
			d["exp"] = unixOf(sec(mk.DelExp))
		}
		if mk.DelSub != "" {
			d["sub"] = mk.DelSub
		}
		if mk.DelType != "" {
			d["trust_mark_type"] = mk.DelType
		}
		dk, dt := ownerKey(mk.Deleg), "trust-mark-delegation+jwt"
		switch mk.Forge {
		case "delsig":
			dk = getKey("attacker@kidof:owner of marks " + mk.Deleg)
		case "deltyp":
			dt = "trust-mark+jwt"
		case "deliss": // by the owner's key, but in another name
			d["iss"] = "https://other-owner.example.org"
		}
		c["delegation"] = signJWT(dk, dt, d)
		if mk.Forge == "delnone" {
			c["delegation"] = unsignedJWT(dt, d)
		}
	}
	key, typ := w.markKey(mk), "trust-mark+jwt"
	switch mk.Forge {
	case "sig":
		key = getKey("attacker@kidof:" + key.name)
	case "typ":
		typ = "JWT"
	case "none":
		return unsignedJWT(typ, c)
	}
	return signJWT(key, typ, c)
}

func (w *World) markKey(mk *MarkSpec) *simKey {
	n := w.nodes[mk.Issuer]
	if n == nil {
		return getKey(mk.Issuer + "#0")
	}
	return getKey(n.keyName(mk.Gen))
}

func (w *World) record(kind string, n *node, sub, raw string, iat, exp time.Duration) string {
	if w.noRecord {
		return raw
	}
	if w.ledger[raw] == nil {
		w.ledger[raw] = &issued{raw: raw, kind: kind, by: n.ID, sub: sub, iat: iat, exp: exp, served: now(), ver: n.verAt}
	}
	return raw
}

// expiresWithin tells whether a served statement expires between a and b (so
// that an operation in that time may see it go).
func (w *World) expiresWithin(a, b time.Duration) bool {
	for _, s := range w.ledger {
		if s.exp >= a-time.Second && s.exp <= b+time.Second {
			return true
		}
	}
	return false
}

// reply of a server.
type reply struct {
	status int
	ctype  string
	body   string
	extra  map[string]string
	drip   time.Duration // a byte each time, without end
	flood  bool          // the body does not end
}

func jsonError(status int, code string) *reply {
	return &reply{status: status, ctype: "application/json", body: string(mustJSON(J{"error": code, "error_description": "simulated"}))}
}

const ctES = "application/entity-statement+jwt"

// serve answers a request the way the addressed entity does.
func (w *World) serve(q *request, rt route, params url.Values) *reply {
	n := rt.n
	if n.gone {
		return jsonError(404, "not_found")
	}
	if r := w.hostile(q, rt, params); r != nil {
		return r
	}
	if rt.moved != n.moved && rt.what != "token" && rt.what != "authz" && rt.what != "ec" {
		return jsonError(404, "not_found")
	}
	if n.Tenant != "" && rt.what != "token" && rt.what != "authz" && rt.what != "ec" && !strings.Contains("&"+q.query+"&", "&"+n.Tenant+"&") {
		return jsonError(404, "not_found")
	}
	t := now()
	switch rt.what {
	case "ec":
		return &reply{status: 200, ctype: ctES, body: w.entityConfiguration(n, t)}
	case "fetch":
		if !n.Auth {
			return jsonError(404, "not_found")
		}
		s := n.sub(params.Get("sub"))
		if s == nil {
			return jsonError(404, "not_found")
		}
		return &reply{status: 200, ctype: ctES, body: w.subordinateStatement(n, s, t)}
	case "list":
		if !n.Auth {
			return jsonError(404, "not_found")
		}
		return &reply{status: 200, ctype: "application/json", body: string(mustJSON(n.listing()))}
	case "tm":
		return w.trustMarkEndpoint(n, params, t)
	case "resolve":
		return w.resolveEndpoint(n, params, t)
	case "token":
		return w.tokenEndpoint(n, q, t)
	case "collect":
		return w.collectEndpoint(n, q, params, t)
	}
	return jsonError(404, "not_found")
}

func (n *node) listing() []string {
	out := []string{}
	for _, s := range n.Subs {
		if !s.Unlist {
			out = append(out, s.ID)
		}
	}
	return append(out, n.ListMore...)
}

// ---- changes of the federation ----

func (w *World) changed(ns ...*node) {
	w.superseded(func(*issued) bool { return true }, ns...)
}

// changedSub notes that what n says about sub is different from now on.
func (w *World) changedSub(n *node, sub string) {
	w.superseded(func(s *issued) bool { return s.kind != "ec" && (s.kind != "sub" || s.sub == sub) }, n)
}

// changedEC notes that what n says about itself is different from now on.
func (w *World) changedEC(n *node) {
	w.superseded(func(s *issued) bool { return s.kind != "sub" }, n)
}

func (w *World) superseded(which func(*issued) bool, ns ...*node) {
	t := now()
	w.changes = append(w.changes, t)
	by := map[string]bool{}
	for _, n := range ns {
		if n != nil {
			n.verAt = t
			by[n.ID] = true
		}
	}
	// what was said before may be in use until it expires; everything else is still true
	for _, s := range w.ledger {
		known := (s.kind == "ec" || s.kind == "sub") && w.nodes[s.by] != nil && w.nodes[s.by].Byz == ""
		if s.exp > w.oldUntil && s.iat <= t && (!known || by[s.by] && which(s)) {
			w.oldUntil = s.exp
		}
	}
	// requests on the wire may still deliver one
	if u := t + sec(70)*10; w.inflight() && u > w.oldUntil {
		w.oldUntil = u
	}
}

func (w *World) inflight() bool {
	for _, q := range w.reqs {
		if q.done == 0 {
			return true
		}
	}
	return false
}

func (w *World) superiors(id string) []*node {
	var out []*node
	for _, o := range w.order {
		if w.nodes[o].sub(id) != nil {
			out = append(out, w.nodes[o])
		}
	}
	return out
}

func (w *World) applyChange(op *Op) {
	n := w.nodes[op.A]
	if n == nil {
		return
	}
	if w.own[n.ID] != nil && (op.Sub == "rotate" || op.Sub == "ownrotate" || op.Sub == "meta" || op.Sub == "hints" || op.Sub == "move") {
		return // it is configured once
	}
	switch op.Sub {
	case "rotate":
		n.gen++
		n.ahead = 0
		w.changed(append(w.superiors(n.ID), n)...)
	case "ownrotate": // its superiors do not know yet
		if n.ahead == 0 {
			n.gen++
			n.ahead = 1
		}
		w.changed(n)
	case "attest":
		n.ahead = 0
		w.changed(append(w.superiors(n.ID), n)...)
	case "move": // its endpoints are somewhere else from now on
		for _, s := range w.ledger {
			if s.kind == "ec" && s.by == n.ID && s.exp > n.movedUntil {
				n.movedUntil = s.exp
			}
		}
		n.moved++
		w.endpoints(n)
		w.changed(n)
	case "remove": // n no longer vouches for B
		for i, s := range n.Subs {
			if s.ID == op.B {
				n.Subs = append(n.Subs[:i:i], n.Subs[i+1:]...)
				break
			}
		}
		w.changedSub(n, op.B)
	case "add":
		if n.sub(op.B) == nil {
			n.Subs = append(n.Subs, &SubSpec{ID: op.B, Life: op.N})
		}
		w.changedSub(n, op.B)
	case "constr":
		if s := n.sub(op.B); s != nil {
			s.Constr = op.J
		}
		w.changedSub(n, op.B)
	case "policy":
		if s := n.sub(op.B); s != nil {
			s.Policy = op.J
		}
		w.changedSub(n, op.B)
	case "hints":
		n.Hints = op.S
		w.changedEC(n)
	case "fetch", "nofetch": // whether it has a fetch endpoint
		n.NoFetch = op.Sub == "nofetch"
		w.changedEC(n)
	case "meta":
		n.Meta = map[string]J{}
		for k, v := range op.J {
			if m, ok := v.(map[string]any); ok {
				n.Meta[k] = m
			}
		}
		w.changedEC(n)
	case "gone":
		n.gone = true
		w.changed(append(w.superiors(n.ID), n)...)
	case "back":
		n.gone = false
		w.changed(append(w.superiors(n.ID), n)...)
	case "tmiss":
		n.TMIss = map[string][]string{}
		for k, v := range op.J {
			l := []string{}
			for _, x := range v.([]any) {
				l = append(l, x.(string))
			}
			n.TMIss[k] = l
		}
		w.changed(n)
	case "resolve":
		w.modeChange(n, n.Resolve, op.B)
		n.Resolve = op.B
	case "collect":
		w.modeChange(n, n.Collect, op.B)
		n.Collect = op.B
	case "tmmode":
		w.modeChange(n, "x", "x")
		n.TMMode = op.B
	case "token":
		w.modeChange(n, "x", "x")
		n.Token = op.B
	}
}

// modeChange notes that an endpoint behaves differently from now on; the metadata
// only change if it appears or disappears.
func (w *World) modeChange(n *node, a, b string) {
	w.modes = append(w.modes, now())
	if (a == "") != (b == "") {
		w.changed(n)
	}
}
