package main

import (
	"fmt"
	"sort"
	"strings"
)

// The generator makes a plan out of a seed: a federation, operations, faults and
// scheduling parameters, with weights that depend on the property.

type genCfg struct {
	nTA, nInt, nLeaf int
	cycles, taChain  int // percent
	constr, policy   int // percent per subordinate
	pPinned, pTypes  int // percent per resolution
	oddPolicy        int
	key2             int
	byz              int // number of falsifying entities at most
	marks, uiInfo    int
	odd              int // percent of small irregularities per entity
	lifeA, lifeB     int
	skew             int
	sync             bool
	noExtraTypes     bool
	everyoneLists    bool
	customTypes      int
	latency          int
	es256            int
}

type gen struct {
	*rng
	p                 *Plan
	cfg               genCfg
	t                 int // ms
	reuse             int // how often a resolver is used again
	tas, ints, leaves []string
}

func (g *gen) node(id string) *NodeSpec {
	for _, n := range g.p.Nodes {
		if n.ID == id {
			return n
		}
	}
	return nil
}

var domains = []string{"example.org", "edu.example.org", "example.net", "sub.edu.example.org", "example.com"}

func (g *gen) link(sub, sup string) {
	s, u := g.node(sub), g.node(sup)
	for _, h := range s.Hints {
		if h == sup {
			return
		}
	}
	s.Hints = append(s.Hints, sup)
	g.addSub(u, sub)
}

func (g *gen) addSub(u *NodeSpec, sub string) {
	for _, x := range u.Subs {
		if x.ID == sub {
			return
		}
	}
	u.Subs = append(u.Subs, &SubSpec{ID: sub, Life: g.rg(g.cfg.lifeA, g.cfg.lifeB)})
}

var scopes = []string{"openid", "profile", "email", "phone", "offline_access"}
var grants = []string{"authorization_code", "refresh_token", "implicit", "client_credentials"}
var mails = []string{"ops@example.org", "help@example.org", "sec@example.net", "noc@example.com"}
var names = []string{"Alpha", "Beta", "Gamma University", "Delta"}
var levels = []string{"low", "substantial", "high"}

// claims of which policies are generated: scalar or list
type claimSpec struct {
	typ, name string
	list      bool
	vals      []string
}

var claimSpecs = []claimSpec{
	{"openid_provider", "organization_name", false, names},
	{"openid_provider", "contacts", true, mails},
	{"openid_provider", "scopes_supported", true, scopes},
	{"openid_provider", "grant_types_supported", true, grants},
	{"openid_relying_party", "client_name", false, names},
	{"openid_relying_party", "contacts", true, mails},
	{"openid_relying_party", "grant_types", true, grants},
	{"oauth_client", "client_name", false, names},
	{"oauth_client", "contacts", true, mails},
	{"oauth_authorization_server", "scopes_supported", true, scopes},
	{"oauth_authorization_server", "organization_name", false, names},
	{"oauth_resource", "resource_name", false, names},
	{"oauth_resource", "contacts", true, mails},
	{"federation_entity", "organization_name", false, names},
	{"federation_entity", "contacts", true, mails},
	{"x_service", "x_level", false, levels},
	{"x_service", "x_tags", true, scopes},
	{"openid_provider", "x_level", false, levels},
	{"openid_relying_party", "x_tags", true, scopes},
}

func (g *gen) claimsFor(t string) J {
	j := J{}
	for _, c := range claimSpecs {
		if c.typ != t || g.p1(30) {
			continue
		}
		if c.list {
			l := subset(g.rng, 55, c.vals...)
			if len(l) > 0 {
				j[c.name] = toAny(l)
			}
		} else {
			j[c.name] = pick(g.rng, c.vals...)
		}
	}
	return j
}

func (g *gen) p1(pct int) bool { return g.rng.p(pct) }

func toAny(l []string) []any {
	out := []any{}
	for _, s := range l {
		out = append(out, s)
	}
	return out
}

func (g *gen) metadataOf(n *NodeSpec, t string) J {
	j := g.claimsFor(t)
	switch t {
	case "openid_provider":
		j["issuer"] = n.ID
		j["authorization_endpoint"] = trimSlash(n.ID) + "/authz"
		j["token_endpoint"] = trimSlash(n.ID) + "/token"
		j["jwks_uri"] = trimSlash(n.ID) + "/jwks"
		j["response_types_supported"] = toAny([]string{"code"})
		j["subject_types_supported"] = toAny([]string{"public"})
		j["id_token_signing_alg_values_supported"] = toAny([]string{"ES256"})
		j["client_registration_types_supported"] = toAny(append([]string{"automatic"}, subset(g.rng, 40, "explicit")...))
	case "openid_relying_party":
		j["redirect_uris"] = toAny([]string{trimSlash(n.ID) + "/cb"})
		j["client_registration_types"] = toAny([]string{"automatic"})
	case "oauth_resource":
		j["resource"] = trimSlash(n.ID) + "/api"
	}
	if g.cfg.uiInfo > 0 {
		for _, k := range []string{"display_name", "description", "logo_uri", "policy_uri", "information_uri"} {
			if g.p1(g.cfg.uiInfo) {
				j[k] = n.ID + "/" + k + "/" + t
			}
		}
		if g.p1(g.cfg.uiInfo) {
			j["keywords"] = toAny(subset(g.rng, 60, "edu", "research", "health"))
		}
	}
	return j
}

func (g *gen) leafTypes() []string {
	t := pick(g.rng, "openid_provider", "openid_provider", "openid_relying_party", "openid_relying_party", "oauth_authorization_server", "oauth_client", "oauth_resource")
	ts := []string{t}
	if g.p1(25) {
		o := pick(g.rng, "openid_provider", "openid_relying_party", "oauth_client", "federation_entity")
		if o != t {
			ts = append(ts, o)
		}
	}
	if g.p1(g.cfg.customTypes) {
		ts = append(ts, "x_service")
	}
	return ts
}

func (g *gen) life() int { return g.rg(g.cfg.lifeA, g.cfg.lifeB) }

// federation builds entities and their relations.
func (g *gen) federation() {
	c := &g.cfg
	mk := func(id string) *NodeSpec {
		n := &NodeSpec{ID: id, Life: g.life(), Meta: map[string]J{}}
		if g.p1(30) {
			n.Reissue = g.rg(5, n.Life*2/3)
		}
		if g.p1(c.es256) {
			n.Alg = "ES256"
		}
		if g.p1(12) {
			n.Tenant = pick(g.rng, "tenant=1", "t=a%20b&v=2")
		}
		if g.p1(c.key2) {
			n.Key2 = pick(g.rng, "same", "mixed")
		}
		g.p.Nodes = append(g.p.Nodes, n)
		return n
	}
	for i := 0; i < c.nTA; i++ {
		id := g.newID("ta", i, domains[:3])
		g.tas = append(g.tas, id)
		n := mk(id)
		n.Auth = true
		n.Meta["federation_entity"] = g.metadataOf(n, "federation_entity")
	}
	for i := 0; i < c.nInt; i++ {
		id := g.newID("int", i, domains)
		g.ints = append(g.ints, id)
		n := mk(id)
		n.Auth = true
		n.Meta["federation_entity"] = g.metadataOf(n, "federation_entity")
		if g.p1(10) {
			n.Meta["openid_provider"] = g.metadataOf(n, "openid_provider")
		}
	}
	for i := 0; i < c.nLeaf; i++ {
		ts := g.leafTypes()
		pre := map[string]string{"openid_provider": "op", "openid_relying_party": "rp"}[ts[0]]
		if pre == "" {
			pre = "ox"
		}
		id := g.newID(pre, i, domains)
		if g.p1(10) {
			id += "/path"
		}
		g.leaves = append(g.leaves, id)
		n := mk(id)
		for _, t := range ts {
			n.Meta[t] = g.metadataOf(n, t)
		}
	}
	// relations
	for i, id := range g.ints {
		sups := append([]string{}, g.tas...)
		sups = append(sups, g.ints[:i]...)
		for k := 0; k < 1+g.n(2); k++ {
			g.link(id, sups[g.n(len(sups))])
		}
	}
	for i := range g.tas {
		if i > 0 && g.p1(c.taChain) {
			g.link(g.tas[i], g.tas[g.n(i)])
		}
		if len(g.ints) > 0 && g.p1(c.taChain/3) {
			g.link(g.tas[i], pick(g.rng, g.ints...))
		}
	}
	if g.p1(c.cycles) && len(g.ints) > 0 {
		for k := 0; k < 1+g.n(3); k++ {
			a, b := pick(g.rng, g.ints...), pick(g.rng, g.ints...)
			if a != b || g.p1(20) {
				g.link(a, b)
			}
		}
	}
	for _, id := range g.leaves {
		sups := append(append([]string{}, g.tas...), g.ints...)
		sups = append(sups, g.ints...)
		for k := 0; k < 1+g.n(3); k++ {
			g.link(id, sups[g.n(len(sups))])
		}
	}
	// order of hints and irregularities
	for _, n := range g.p.Nodes {
		shuffle(g.rng, n.Hints)
		if !g.p1(c.odd) {
			continue
		}
		switch g.n(9) {
		case 0:
			n.Hints = append(n.Hints, pick(g.rng, "https://nowhere.example.org", g.near(pick(g.rng, g.tas...))))
		case 1:
			n.Hints = append(n.Hints, pick(g.rng, g.tas...)) // perhaps not known there
		case 2:
			if n.Auth {
				g.addSub(n, pick(g.rng, g.leaves...)) // which may not know about it
			}
		case 3:
			n.NoFetch = true
		case 4:
			n.NoList = !c.everyoneLists
		case 5:
			if len(n.Subs) > 0 {
				n.Subs[g.n(len(n.Subs))].Keys = pick(g.rng, "other", "both", "ec", "st")
			}
		case 6:
			if len(n.Hints) > 0 {
				n.Hints = append(n.Hints, n.Hints[0])
			}
		case 7:
			if !n.Auth {
				n.Auth = true // an authority without subordinates
			}
		case 8:
			n.Hints = append(n.Hints, n.ID)
			if n.Auth {
				g.addSub(n, n.ID)
			}
		}
	}
	for _, n := range g.p.Nodes {
		for _, s := range n.Subs {
			if g.p1(c.constr) {
				s.Constr = g.constraint(n, s)
			}
			if g.p1(c.policy) {
				s.Policy = g.policyFor()
				if g.p1(c.oddPolicy / 3) {
					s.Extra = J{"metadata_policy_crit": toAny([]string{pick(g.rng, "x_unknown", "regexp", "value")})}
				}
			}
		}
	}
}

func (g *gen) constraint(n *NodeSpec, s *SubSpec) J {
	j := J{}
	if g.p1(50) {
		j["max_path_length"] = float64(g.n(4))
	}
	if g.p1(40) {
		nc := J{}
		opts := []string{".example.org", ".edu.example.org", ".example.net", ".example.com", "example.org"}
		for _, l := range append(append([]string{}, g.leaves...), g.ints...) {
			if g.p1(30) {
				opts = append(opts, strings.TrimSuffix(hostOf(l), ":8443"))
			}
		}
		if g.p1(60) {
			nc["permitted"] = toAny(append(subset(g.rng, 50, opts...), pick(g.rng, opts...)))
		}
		if g.p1(60) {
			nc["excluded"] = toAny(append(subset(g.rng, 15, opts...), pick(g.rng, opts...)))
		}
		if len(nc) > 0 {
			j["naming_constraints"] = nc
		}
	}
	if g.p1(35) {
		l := subset(g.rng, 55, "openid_provider", "openid_relying_party", "oauth_authorization_server", "oauth_client", "oauth_resource")
		if g.p1(15) {
			l = nil // only federation entities
		}
		j["allowed_entity_types"] = toAny(l)
	}
	if len(j) == 0 {
		return nil
	}
	return j
}

// newID is an identifier for an entity. Some have a port; some hosts end in a domain
// of another one without being part of it, and some are such a domain.
func (g *gen) newID(pre string, i int, doms []string) string {
	h := fmt.Sprintf("%s%d", pre, i)
	d := pick(g.rng, doms...)
	switch g.n(30) {
	case 0, 1:
		return "https://" + h + d
	case 2:
		return "https://" + h + "." + d + ":8443"
	case 4:
		return "https://" + h + "." + d + "/"
	case 3:
		for _, n := range g.p.Nodes {
			if hostOf(n.ID) == d {
				return "https://" + h + "." + d
			}
		}
		return "https://" + d
	}
	return "https://" + h + "." + d
}

// near gives an identifier that is almost the given one.
func (g *gen) near(id string) string {
	switch g.n(5) {
	case 0, 1:
		if strings.HasSuffix(id, "/") {
			return strings.TrimSuffix(id, "/")
		}
		return id + "/"
	case 2:
		return "https://" + strings.ToUpper(hostOf(id)) + id[len("https://")+len(hostOf(id)):]
	case 3:
		return strings.TrimSuffix(id, "/") + pick(g.rng, "/x", "x", ".example.com")
	}
	return "http://" + id[len("https://"):]
}

func hostOf(id string) string {
	s := id[len("https://"):]
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			return s[:i]
		}
	}
	return s
}

// policyFor makes a metadata policy; a single entry never contradicts itself.
func (g *gen) policyFor() J {
	j := J{}
	for k := 0; k < 1+g.n(4); k++ {
		c := pick(g.rng, claimSpecs...)
		e := J{}
		vals := func() []any {
			l := subset(g.rng, 50, c.vals...)
			if len(l) == 0 {
				l = []string{pick(g.rng, c.vals...)}
			}
			return toAny(l)
		}
		if c.list {
			switch g.n(8) {
			case 0:
				e["value"] = vals()
			case 1, 2:
				e["add"] = vals()
			case 3:
				e["default"] = vals()
			case 4, 5:
				e["subset_of"] = vals()
			case 6:
				e["superset_of"] = vals()
			case 7:
				a := vals()
				e["superset_of"] = a[:1]
				e["subset_of"] = a
			}
		} else {
			switch g.n(5) {
			case 0:
				e["value"] = pick(g.rng, c.vals...)
			case 1, 2:
				e["default"] = pick(g.rng, c.vals...)
			case 3:
				e["one_of"] = vals()
			case 4:
				l := vals()
				e["one_of"] = l
				e["default"] = l[0]
			}
		}
		if g.p1(15) {
			e["essential"] = g.p1(70)
		}
		if g.p1(g.cfg.oddPolicy) {
			switch g.n(4) {
			case 0:
				e["x_unknown"] = toAny([]string{"whatever"})
			case 1: // contradicts itself
				if c.list {
					e = J{"value": toAny(c.vals[:1]), "subset_of": toAny(c.vals[1:])}
				} else {
					e = J{"one_of": toAny(c.vals), "subset_of": toAny(c.vals)}
				}
			case 2:
				if c.list {
					e = J{"superset_of": toAny(c.vals[:2]), "subset_of": toAny(c.vals[1:])}
				}
			case 3:
				if c.list {
					e["regexp"] = "^.*$"
				}
			}
		}
		m, _ := j[c.typ].(J)
		if m == nil {
			m = J{}
			j[c.typ] = m
		}
		m[c.name] = e
	}
	return j
}

// gap lets time pass before the next operation.
func (g *gen) gap(kind int) {
	switch kind {
	case 0: // concurrent
		g.t += g.n(3)
	case 1: // short
		g.t += g.rg(50, 5000)
	case 2: // long enough for statements to expire
		g.t += g.rg(10_000, 400_000)
	case 3:
		g.t += g.rg(400_000, 7_300_000)
	}
}

func (g *gen) add(op Op) {
	op.T = g.t
	g.p.Ops = append(g.p.Ops, op)
}

func (g *gen) anyEntity() string {
	x := g.n(100)
	switch {
	case x < 70:
		return pick(g.rng, g.leaves...)
	case x < 88 && len(g.ints) > 0:
		return pick(g.rng, g.ints...)
	case x < 97:
		return pick(g.rng, g.tas...)
	}
	return "https://nowhere.example.org"
}

func (g *gen) anchors() []AnchorQ {
	var l []string
	for len(l) == 0 {
		l = subset(g.rng, 60, g.tas...)
	}
	if g.p1(8) && len(g.ints) > 0 {
		l = append(l, pick(g.rng, g.ints...))
	}
	if g.p1(4) {
		l = append(l, "https://nowhere.example.org")
	}
	shuffle(g.rng, l)
	var out []AnchorQ
	for _, a := range dedupe(l) {
		q := AnchorQ{ID: a}
		if g.p1(g.cfg.pPinned) {
			q.Pin = pick(g.rng, "gen:0", "gen:0", "gen:0", "other", "samekid")
		}
		out = append(out, q)
	}
	return out
}

func (g *gen) typeReq() []string {
	if !g.p1(g.cfg.pTypes) {
		return nil
	}
	return append(subset(g.rng, 30, "openid_provider", "openid_relying_party", "federation_entity", "x_service"), pick(g.rng, "openid_provider", "openid_relying_party", "oauth_client", "oauth_resource"))
}

func unpin(as []AnchorQ) []AnchorQ {
	out := []AnchorQ{}
	seen := map[string]bool{}
	for _, a := range as {
		if !seen[a.ID] {
			out = append(out, AnchorQ{ID: a.ID})
		}
		seen[a.ID] = true
	}
	return out
}

// resolveOp is some resolution of an entity.
func (g *gen) resolveOp() Op {
	op := Op{Sub: g.anyEntity(), Anchors: g.anchors(), Types: dedupe(g.typeReq())}
	if g.p1(2) {
		op.Sub = g.near(op.Sub)
	}
	if g.p1(2) {
		op.Anchors[0] = AnchorQ{ID: g.near(op.Anchors[0].ID)}
	}
	if len(op.Types) == 0 {
		op.Types = nil
	}
	switch x := g.n(100); {
	case x < 45:
		op.Kind = "resolve"
	case x < 60:
		op.Kind, op.A = "resolve", "nometa"
	case x < 66:
		op.Kind, op.A = "resolve", "steps"
	case x < 68: // the chains of a tree of which nothing is verified
		op.Kind, op.A = "resolve", "raw"
	case x < 78:
		op.Kind = "meta"
	case x < 92:
		op.Kind = "payload"
	default:
		op.Kind = "possible"
	}
	if op.Kind == "resolve" && g.cfg.pPinned > 0 && g.p1(4) { // an anchor with several sets of keys
		if a := pick(g.rng, op.Anchors...); a.Pin != "" {
			a.Pin = pick(g.rng, "gen:0", "gen:0", "other", "samekid")
			op.Anchors = append(op.Anchors, a)
			shuffle(g.rng, op.Anchors)
		}
	}
	if op.Kind != "resolve" {
		op.Anchors = unpin(op.Anchors)
	} else if g.reuse > 0 && g.p1(g.reuse) {
		op.J = J{"reuse": float64(g.n(2))}
	}
	return op
}

// cluster adds n resolutions that overlap or follow each other shortly.
func (g *gen) cluster(n, gapKind int, f func() Op) {
	for i := 0; i < n; i++ {
		g.add(f())
		g.gap(gapKind)
	}
}

var byzEC = []string{"badsig", "selfkey", "addkey", "iss", "sub", "idswap", "typ", "notyp", "none", "nojwks"}
var byzTime = []string{"expired", "justexpired", "future"}
var byzSub = []string{"badsig", "stolen", "iss", "sub", "typ", "none", "nojwks", "self"}

func (g *gen) makeByz(n int, ec, sub []string) {
	for i := 0; i < n; i++ {
		nd := g.p.Nodes[g.n(len(g.p.Nodes))]
		if g.p1(45) || len(nd.Subs) == 0 {
			nd.Byz = pick(g.rng, ec...)
		} else {
			nd.Subs[g.n(len(nd.Subs))].Byz = pick(g.rng, sub...)
		}
	}
}

var netFaults = []string{"drop", "refuse", "reset", "stall", "e500html", "e502json", "e500json", "e503empty", "e500list", "e404html", "e404json", "e429", "garb", "empty200", "html200", "json200", "trunc", "short", "swap"}

// faults adds a period of failures and returns its end.
func (g *gen) faults(from, to int, kinds []string) {
	for k := 0; k < 1+g.n(4); k++ {
		f := FaultRule{From: from, To: to, Kind: pick(g.rng, kinds...), Pct: pick(g.rng, 20, 50, 100)}
		if g.p1(60) {
			f.Host = g.p.Nodes[g.n(len(g.p.Nodes))].ID
		}
		if g.p1(40) {
			f.What = pick(g.rng, "ec", "fetch", "list")
		}
		if f.Kind == "stall" {
			f.Arg = pick(g.rng, 500, 5000, 19000, 30000, 90000)
		}
		g.p.Faults = append(g.p.Faults, f)
	}
}

// sched picks the scheduling parameters.
func (g *gen) sched() {
	g.p.Sched.Mode = pick(g.rng, 1, 1, 2)
	g.p.Sched.YieldThr = pick(g.rng, uint32(0), 1<<22, 1<<26, 1<<28)
	g.p.Sched.Cutoff = 1 << 60
}

func generate(prop string, seed uint64) *Plan {
	g := &gen{rng: newRng(mix(hashStr(0, prop), seed)), p: &Plan{Prop: prop, Seed: seed, Params: map[string]int{}}}
	g.sched()
	c := &g.cfg
	*c = genCfg{nTA: g.rg(1, 3), nInt: g.n(5), nLeaf: g.rg(1, 4), cycles: 25, taChain: 25, constr: 8, policy: 25, pPinned: 15, pTypes: 8,
		odd: 15, lifeA: 60, lifeB: 900, latency: pick(g.rng, 0, 20, 200, 2000), es256: 8, customTypes: 10, key2: pick(g.rng, 0, 0, 5, 30)}
	g.p.Cache.Kind = pick(g.rng, "mem", "mem", "sim", "sim", "redis")
	g.reuse = pick(g.rng, 0, 0, 0, 40, 80)
	genFor[prop](g)
	g.p.LatencyMS = c.latency
	sort.SliceStable(g.p.Ops, func(i, j int) bool { return g.p.Ops[i].T < g.p.Ops[j].T })
	return g.p
}

var genFor = map[string]func(g *gen){
	"C01": func(g *gen) {
		g.cfg.pPinned = 45
		g.cfg.odd = 30
		g.federation()
		g.makeByz(g.rg(0, 3), byzEC, byzSub)
		if g.p1(25) {
			g.faults(0, g.rg(1000, 200_000), []string{"mitm", "swap", "stale", "dup"})
		}
		for k := 0; k < 1+g.n(4); k++ {
			g.cluster(1+g.n(5), g.n(2), g.resolveOp)
			if g.p1(20) {
				g.change(pick(g.rng, "rotate", "rotate", "remove", "ownrotate", "attest"))
			}
			g.gap(1 + g.n(3))
		}
	},
	"C02": func(g *gen) {
		g.cfg.lifeA, g.cfg.lifeB = 8, pick(g.rng, 40, 120, 300)
		g.cfg.constr = 0
		g.cfg.latency = pick(g.rng, 20, 2000, 6000)
		g.federation()
		g.skews(20)
		if g.p1(30) {
			g.makeByz(g.rg(1, 2), byzTime, byzTime)
		}
		if g.p1(40) {
			g.faults(0, 600_000, []string{"stall"})
		}
		if g.p1(25) {
			g.p.Cache.Kind = "sim"
			g.p.Cache.Stall = 5
			g.p.Cache.FaultUntil = 600_000
		}
		sub, as := g.anyEntity(), g.anchors()
		for k := 0; k < 2+g.n(8); k++ {
			op := g.resolveOp()
			if g.p1(70) {
				op.Sub, op.Anchors, op.Types = sub, as, nil
				if op.Kind != "resolve" {
					op.Anchors = unpin(as)
				}
			}
			g.add(op)
			g.t += pick(g.rng, g.n(3), g.rg(500, 9000), g.rg(5000, 60_000), g.rg(30_000, 400_000))
		}
	},
	"C03": func(g *gen) {
		g.cfg.constr = 60
		g.cfg.nInt = g.rg(1, 6)
		g.cfg.odd = 8
		g.cfg.pPinned = 5
		g.federation()
		if g.p1(4) {
			g.far()
		}
		for k := 0; k < 1+g.n(3); k++ {
			g.cluster(2+g.n(5), g.n(2), g.resolveOp)
			if g.p1(20) {
				g.change("constr")
			}
			g.gap(1 + g.n(3))
		}
	},
	"C04": func(g *gen) {
		g.cfg.nTA, g.cfg.nInt, g.cfg.nLeaf = g.rg(1, 4), g.n(7), g.rg(1, 5)
		g.cfg.cycles, g.cfg.taChain, g.cfg.odd = 55, 45, 20
		if g.cfg.nInt > 5 {
			g.cfg.cycles = 20
		}
		g.federation()
		if g.p1(8) {
			g.far()
		}
		if g.p1(35) {
			g.badBranches(pick(g.rng, 25, 60))
		}
		for k := 0; k < 1+g.n(4); k++ {
			g.cluster(1+g.n(6), g.n(2), g.resolveOp)
			g.gap(1 + g.n(3))
		}
	},
}

// far adds a long way up from a leaf, or many short ones.
func (g *gen) far() {
	sups := append(append([]string{}, g.tas...), g.tas...)
	if len(g.ints) > 0 {
		sups = append(sups, pick(g.rng, g.ints...))
	}
	leaf, sup := pick(g.rng, g.leaves...), pick(g.rng, sups...)
	long := g.p1(60)
	for i, n := 0, g.rg(5, 30); i < n; i++ {
		id := g.extraAuth(fmt.Sprintf("https://far%d.example.org", i))
		g.link(id, sup)
		if g.p1(g.cfg.constr / 6) {
			u := g.node(sup)
			u.Subs[len(u.Subs)-1].Constr = J{"max_path_length": float64(g.n(12))}
		}
		if long {
			sup = id
		} else {
			g.link(leaf, id)
			sup = pick(g.rng, sups...)
		}
	}
	if long {
		g.link(leaf, sup)
	}
}

// badBranches makes one of several ways up unusable.
func (g *gen) badBranches(pct int) {
	for _, n := range g.p.Nodes {
		hs := dedupe(append([]string{}, n.Hints...))
		if len(hs) < 2 || !g.p1(pct) {
			continue
		}
		a := g.node(pick(g.rng, hs...))
		if a == nil {
			continue
		}
		for i, s := range a.Subs {
			if s.ID != n.ID {
				continue
			}
			switch g.n(6) {
			case 0, 1, 2:
				s.Keys = pick(g.rng, "other", "ec", "ec", "st")
				if s.Keys != "other" && n.Key2 == "" {
					n.Key2 = pick(g.rng, "same", "mixed")
				}
			case 3:
				s.Constr = J{"max_path_length": 0.0}
			case 4:
				s.Constr = J{"naming_constraints": map[string]any{"excluded": []any{".org", ".com", ".net"}}}
			case 5:
				a.Subs = append(a.Subs[:i:i], a.Subs[i+1:]...)
			}
			break
		}
	}
}

func (g *gen) skews(pct int) {
	for _, n := range g.p.Nodes {
		if g.p1(pct) {
			n.Skew = pick(g.rng, -30, -5, -1, 1, 3, 10, 60, 600)
		}
	}
}

// change adds a change of the federation.
func (g *gen) change(kind string) {
	op := Op{Kind: "change", Sub: kind}
	n := g.p.Nodes[g.n(len(g.p.Nodes))]
	op.A = n.ID
	withSubs := func() bool {
		for i := 0; i < 20 && len(n.Subs) == 0; i++ {
			n = g.p.Nodes[g.n(len(g.p.Nodes))]
		}
		op.A = n.ID
		return len(n.Subs) > 0
	}
	switch kind {
	case "remove":
		if !withSubs() {
			return
		}
		op.B = n.Subs[g.n(len(n.Subs))].ID
	case "add":
		if !withSubs() {
			return
		}
		op.B, op.N = g.anyEntity(), g.life()
	case "constr", "policy":
		if !withSubs() {
			return
		}
		s := n.Subs[g.n(len(n.Subs))]
		op.B = s.ID
		if kind == "constr" {
			op.J = g.constraint(n, s)
		} else {
			op.J = g.policyFor()
		}
	case "hints":
		op.A = pick(g.rng, append(append([]string{}, g.leaves...), g.ints...)...)
		op.S = dedupe(append(subset(g.rng, 50, g.node(op.A).Hints...), subset(g.rng, 30, append(append([]string{}, g.tas...), g.ints...)...)...))
	case "meta":
		op.A = pick(g.rng, g.leaves...)
		nd := g.node(op.A)
		op.J = J{}
		for t := range nd.Meta {
			op.J[t] = nil
		}
		ts := []string{}
		for t := range op.J {
			ts = append(ts, t)
		}
		sort.Strings(ts)
		for _, t := range ts {
			op.J[t] = map[string]any(g.metadataOf(nd, t))
		}
		if g.p1(30) {
			op.J["oauth_resource"] = map[string]any(g.metadataOf(nd, "oauth_resource"))
		}
	}
	g.add(op)
}
