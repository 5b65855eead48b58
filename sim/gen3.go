package main

import "fmt"

func init() {
	genFor["C10"] = genC10
	genFor["C11"] = genC11
	genFor["C12"] = genC12
	genFor["C14"] = genC14
	genFor["C15"] = genC15
	genFor["C18"] = genC18
	genFor["C19"] = genC19
}

func (g *gen) authority() *NodeSpec {
	var l []*NodeSpec
	for _, n := range g.p.Nodes {
		if n.Auth && !n.NoFetch {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[g.n(len(l))]
}

// statementOp gets a single statement.
func (g *gen) statementOp() Op {
	if a := g.authority(); a != nil && g.p1(45) {
		sub := g.anyEntity()
		if len(a.Subs) > 0 && g.p1(90) {
			sub = a.Subs[g.n(len(a.Subs))].ID
		}
		if sub != a.ID {
			return Op{Kind: "fetch", A: a.ID, Sub: sub}
		}
	}
	return Op{Kind: "getec", Sub: g.anyEntity()}
}

func genC10(g *gen) {
	c := &g.cfg
	c.nTA, c.nInt, c.nLeaf = g.rg(1, 2), g.n(3), g.rg(1, 3)
	c.lifeA, c.lifeB = pick(g.rng, 8, 60, 2000), pick(g.rng, 2400, 9000)
	if c.lifeA == 8 {
		c.lifeB = pick(g.rng, 30, 120)
	}
	if c.lifeA == 60 {
		c.lifeB = pick(g.rng, 300, 1200)
	}
	g.federation()
	for _, n := range g.p.Nodes {
		if g.p1(50) {
			n.Reissue = 0
		}
	}
	if g.p1(20) {
		g.skews(30)
	}
	if g.p1(15) {
		g.makeByz(1, append(byzTime, "iss", "sub", "typ"), byzTime)
	}
	if g.p1(60) {
		g.p.Params["grace"] = pick(g.rng, 0, 3, 20, 100, 600, 3600, 100_000)
		g.p.Params["factor"] = pick(g.rng, 0, 25, 50, 75, 90, 100)
	}
	if g.p.Cache.Kind == "none" {
		g.p.Cache.Kind = "mem"
	}
	ops := []Op{g.statementOp(), g.statementOp(), g.statementOp()}
	life := func() int { return (c.lifeA + c.lifeB) / 2 * 1000 }
	for k := 0; k < 4+g.n(14); k++ {
		op := pick(g.rng, ops...)
		if g.p1(10) {
			op = g.statementOp()
		}
		if g.p1(8) {
			op = g.resolveOp()
		}
		g.add(op)
		if g.p1(25) {
			g.t += g.n(3)
			g.add(pick(g.rng, ops...))
		}
		if g.p1(15) {
			g.faults(g.t, g.t+g.rg(100, life()), []string{"drop", "refuse", "reset", "stall", "e500html", "e502json", "e503empty", "e404json", "empty200", "html200", "json200", "trunc", "short", "stale", "dup"})
		}
		if g.p1(10) {
			g.changeAny("rotate", "constr", "policy", "meta", "move")
		}
		g.t += pick(g.rng, g.n(4), g.rg(100, 6000), g.rg(life()/20, life()/4), g.rg(life()/4, life()), g.rg(life()/2, life()*3/2))
	}
}

func (g *gen) collectOp() Op {
	a := pick(g.rng, g.tas...)
	if g.p1(12) && len(g.ints) > 0 {
		a = pick(g.rng, g.ints...)
	}
	if g.p1(3) {
		a = pick(g.rng, g.leaves...)
	}
	op := Op{Kind: "collect", Anchors: []AnchorQ{{ID: a}}}
	if g.p1(25) {
		op.Slot = 1
	}
	return op
}

var collectClaims = []string{"entity_types", "display_name", "description", "logo_uri", "policy_uri", "information_uri", "keywords", "trust_chain", "trust_marks", "metadata"}

// restrict adds restrictions to a collection.
func (g *gen) restrict(op Op) Op {
	if g.p1(45) {
		op.Types = dedupe(append(subset(g.rng, 20, "openid_provider", "openid_relying_party", "federation_entity", "x_service"), pick(g.rng, "openid_provider", "openid_relying_party", "oauth_client", "federation_entity")))
	}
	if g.p1(30) {
		op.B = pick(g.rng, "alpha", "Beta", "gam", "UNIV", "lt", "a", "https", "display", "zzz", "gamma university", "op0", "ea")
	}
	if g.p1(35) && g.cfg.marks > 0 {
		op.S = []string{g.markType()}
		if g.p1(25) {
			op.S = dedupe(append(op.S, g.markType()))
		}
	}
	if g.p1(50) {
		op.Claims = append(subset(g.rng, 45, collectClaims...), pick(g.rng, collectClaims...))
		op.Claims = dedupe(op.Claims)
	}
	return op
}

func (g *gen) fullCollectOp() Op {
	op := g.restrict(g.collectOp())
	switch x := g.n(100); {
	case x < 45:
	case x < 55:
		op.A = "op"
	case x < 70:
		op.A = "verified"
	default:
		op.A = pick(g.rng, "filter:grants", "filter:scopes", "filter:explicit", "filter:automatic", "filter:ops")
		switch op.A {
		case "filter:grants":
			op.J = J{"args": toAny(append(subset(g.rng, 20, grants...), pick(g.rng, grants...)))}
		case "filter:scopes":
			op.J = J{"args": toAny(append(subset(g.rng, 20, scopes...), pick(g.rng, scopes...)))}
		case "filter:ops":
			if op.Claims != nil && !contains(op.Claims, "entity_types") {
				op.Claims = append(op.Claims, "entity_types")
			}
		}
	}
	return op
}

var listFaults = []string{"drop", "refuse", "reset", "e500html", "e502json", "e500json", "e503empty", "e500list", "e404html", "e404json", "empty200", "html200", "json200", "trunc", "short"}

func genC11(g *gen) {
	c := &g.cfg
	c.nTA, c.nInt, c.nLeaf = g.rg(1, 3), g.n(7), g.rg(1, 6)
	c.cycles, c.taChain, c.odd = 60, 45, 25
	c.constr, c.policy = 3, 5
	c.lifeA, c.lifeB = pick(g.rng, 60, 600), pick(g.rng, 900, 5000)
	if g.p1(4) { // more than there are workers
		c.nLeaf = g.rg(100, 180)
		c.nInt = g.n(3)
		c.latency = pick(g.rng, 0, 20)
	}
	g.federation()
	switch {
	case g.p1(2): // more authorities on one level than there are workers
		sup := pick(g.rng, append(append([]string{}, g.tas...), g.ints...)...)
		for i, n := 0, g.rg(126, 260); i < n; i++ {
			g.link(g.extraAuth(fmt.Sprintf("https://wide%d.example.org", i)), sup)
		}
		c.latency = pick(g.rng, 20, 200)
	case g.p1(2): // a long chain of authorities, perhaps with a way back
		sup := pick(g.rng, append(append([]string{}, g.tas...), g.ints...)...)
		first := sup
		for i, n := 0, g.rg(20, 60); i < n; i++ {
			id := g.extraAuth(fmt.Sprintf("https://deep%d.example.org", i))
			g.link(id, sup)
			sup = id
		}
		if g.p1(50) {
			g.addSub(g.node(sup), first)
		}
		g.link(pick(g.rng, g.leaves...), sup)
	}
	if g.p1(25) { // listed among its own subordinates
		id := pick(g.rng, g.tas...)
		g.addSub(g.node(id), id)
	}
	for _, n := range g.p.Nodes {
		if n.Auth && g.p1(10) {
			n.ListMore = append(n.ListMore, pick(g.rng, g.anyEntity(), "https://nowhere.example.org", "", "not a url", g.anyEntity()))
		}
		if g.p1(2) {
			n.NoMeta = true
		}
	}
	if g.p1(10) {
		g.makeByz(g.rg(1, 2), byzEC, byzSub)
	}
	op := g.collectOp()
	for k := 0; k < 1+g.n(3); k++ {
		if g.p1(35) {
			from := g.t
			g.add(op)
			g.t += g.rg(10, 2000)
			g.faults(from, g.t, listFaults)
			g.t += g.rg(0, 3000)
		}
		for j := 0; j < 1+g.n(3); j++ {
			if g.p1(30) {
				op = g.collectOp()
			}
			g.add(op)
			if g.p1(15) {
				g.add(g.resolveOp())
			}
			g.gap(g.n(2))
		}
		if g.p1(25) {
			g.changeAny("remove", "add", "meta", "rotate", "move")
		}
		if g.p1(8) {
			g.restart()
		}
		g.gap(1 + g.n(3))
		if g.p1(25) {
			g.t += 3_700_000
		}
	}
	g.add(op)
}

// extraAuth adds an authority to a complete federation.
func (g *gen) extraAuth(id string) string {
	n := &NodeSpec{ID: id, Life: g.life(), Auth: true, Meta: map[string]J{}}
	g.p.Nodes = append(g.p.Nodes, n)
	n.Meta["federation_entity"] = g.metadataOf(n, "federation_entity")
	return id
}

func genC12(g *gen) {
	c := &g.cfg
	c.nTA, c.nInt, c.nLeaf = g.rg(1, 2), g.n(4), g.rg(2, 6)
	c.uiInfo, c.customTypes, c.marks = 40, 25, pick(g.rng, 0, 50)
	c.constr, c.policy, c.odd = 12, 25, 12
	c.lifeA, c.lifeB = 100, pick(g.rng, 900, 5000)
	g.federation()
	g.marks()
	g.smart(20)
	if g.p1(8) {
		g.makeByz(1, byzEC, byzSub)
	}
	op := g.fullCollectOp()
	for k := 0; k < 1+g.n(4); k++ {
		for j := 0; j < 1+g.n(3); j++ {
			if g.p1(60) {
				op = g.fullCollectOp()
			}
			g.add(op)
			if g.p1(10) {
				g.add(g.resolveOp())
			}
			g.gap(g.n(2))
		}
		if g.p1(20) {
			g.changeAny("remove", "add", "meta", "policy", "constr", "rotate", "move")
		}
		if g.p1(20) { // what is listed is no longer valid
			op = g.fullCollectOp()
			op.A, op.J = "verified", nil
			g.add(op)
			g.gap(1 + g.n(2))
			g.changeAny("constr", "policy", "constr", "policy", "meta")
			g.t += 3_610_000 + c.lifeB*1000
			g.add(op)
		}
		g.gap(1 + g.n(3))
		if g.p1(20) {
			g.t += 3_700_000
		}
	}
}

// ---- trust marks ----

var markTypes = []string{"https://marks.example.org/a", "https://marks.example.org/b", "https://marks.example.org/c", "member"}

func (g *gen) markType() string { return pick(g.rng, markTypes...) }

// marks gives the entities trust marks and the anchors opinions about them.
func (g *gen) marks() {
	if g.cfg.marks == 0 {
		return
	}
	all := append(append(append([]string{}, g.tas...), g.ints...), g.leaves...)
	var issuers []string
	for k := 0; k < 1+g.n(3); k++ {
		issuers = append(issuers, pick(g.rng, all...))
	}
	if g.p1(30) {
		issuers = append(issuers, pick(g.rng, g.tas...))
	}
	issuers = dedupe(issuers)
	owners := []string{"https://owner.example.org", pick(g.rng, all...)}
	for _, id := range g.tas {
		n := g.node(id)
		for _, t := range markTypes {
			if g.p1(50) {
				if n.TMIss == nil {
					n.TMIss = map[string][]string{}
				}
				l := subset(g.rng, 75, issuers...)
				if g.p1(20) || len(l) == 0 {
					l = append(l, "https://nowhere.example.org")
				}
				n.TMIss[t] = l
			}
			if g.p1(25) {
				if n.TMOwn == nil {
					n.TMOwn = map[string]string{}
				}
				n.TMOwn[t] = pick(g.rng, owners...)
			}
		}
	}
	for _, n := range g.p.Nodes {
		if !g.p1(g.cfg.marks) {
			continue
		}
		for k := 0; k < 1+g.n(3); k++ {
			m := MarkSpec{Type: g.markType(), Issuer: pick(g.rng, issuers...), Sub: n.ID, Iat: -g.n(100_000)}
			if g.p1(60) {
				m.Exp = g.rg(10, 8000)
			}
			own := pick(g.rng, owners...)
			for _, ta := range g.tas {
				if o := g.node(ta).TMOwn[m.Type]; o != "" && g.p1(85) {
					m.Deleg = o
				}
			}
			if m.Deleg == "" && g.p1(20) {
				m.Deleg = own
			}
			if m.Deleg != "" {
				m.DelIat = -g.n(100_000)
				if g.p1(50) {
					m.DelExp = g.rg(10, 8000)
				}
			}
			if g.p1(35) {
				switch g.n(14) {
				case 0, 1:
					m.Sub = pick(g.rng, all...)
				case 2:
					m.Sub = g.near(n.ID)
				case 3:
					m.Issuer = pick(g.rng, pick(g.rng, all...), g.near(m.Issuer))
				case 4:
					m.Issuer = "https://nowhere.example.org"
				case 5:
					m.Forge = "sig"
				case 6:
					m.Forge = "typ"
				case 7:
					m.Forge = "none"
				case 8:
					m.Iat = g.rg(10, 5000)
					m.Exp = 0
				case 9:
					m.InfoTyp = g.markType()
				case 10:
					m.Forge = pick(g.rng, "delsig", "deltyp", "deliss", "delnone")
				case 11:
					m.DelSub = pick(g.rng, pick(g.rng, all...), g.near(m.Issuer))
				case 12:
					m.DelType = g.markType()
				case 13:
					m.Gen = 1
				}
			}
			if g.p1(5) && m.Deleg != "" {
				m.DelIat = g.rg(10, 5000)
				m.DelExp = 0
			}
			n.Marks = append(n.Marks, m)
			if g.p1(5) {
				n.Marks = append(n.Marks, m)
			}
		}
	}
}

// bearer is an entity with trust marks, if there is one.
func (g *gen) bearer() *NodeSpec {
	var l []*NodeSpec
	for _, n := range g.p.Nodes {
		if len(n.Marks) > 0 {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		return g.p.Nodes[g.n(len(g.p.Nodes))]
	}
	return l[g.n(len(l))]
}

func (g *gen) tmOp() Op {
	b := g.bearer()
	op := Op{Kind: "tmverify", Sub: b.ID, A: pick(g.rng, "", "", "info", "mark", "external", "deleg"), Anchors: []AnchorQ{{ID: pick(g.rng, g.tas...)}}}
	if op.A == "deleg" && g.p1(40) {
		for _, m := range b.Marks {
			if m.Deleg != "" {
				op.B = m.Deleg
			}
		}
	}
	if op.A == "external" {
		for _, m := range b.Marks {
			if g.p1(60) {
				op.S = append(op.S, fmt.Sprintf("%s#%d", m.Issuer, m.Gen))
			}
			if m.Deleg != "" && g.p1(70) {
				op.B = m.Deleg
				op.Claims = []string{m.Deleg}
			}
		}
		if op.B != "" && g.p1(15) {
			op.Claims = []string{"https://other.example.org"}
		}
		if len(op.S) == 0 || g.p1(20) {
			op.S = append(op.S, pick(g.rng, g.tas...)+"#0")
		}
		op.S = dedupe(op.S)
	}
	return op
}

func (g *gen) markChange() {
	switch g.n(3) {
	case 0: // an issuer changes its key
		b := g.bearer()
		if len(b.Marks) > 0 {
			g.add(Op{Kind: "change", Sub: "rotate", A: b.Marks[g.n(len(b.Marks))].Issuer})
		}
	case 1:
		ta := pick(g.rng, g.tas...)
		j := J{}
		for _, t := range markTypes {
			if g.p1(50) {
				l := []string{}
				for _, m := range g.bearer().Marks {
					l = append(l, m.Issuer)
				}
				j[t] = toAny(dedupe(append(l, "https://nowhere.example.org")))
			}
		}
		g.add(Op{Kind: "change", Sub: "tmiss", A: ta, J: j})
	case 2:
		g.changeAny("remove", "add", "policy", "constr", "gone")
	}
}

// unattested lets an issuer change its keys without its superiors, while what was resolved
// before is still in use, and marks of the new key be shown.
func (g *gen) unattested() {
	b := g.bearer()
	if len(b.Marks) == 0 {
		return
	}
	m := b.Marks[g.n(len(b.Marks))]
	in := g.node(m.Issuer)
	if in == nil || contains(g.tas, m.Issuer) {
		return
	}
	m.Gen = 1
	b.Marks = append(b.Marks, m)
	ta := pick(g.rng, g.tas...)
	op := Op{Kind: "tmverify", Sub: b.ID, A: pick(g.rng, "", "info", "mark"), Anchors: []AnchorQ{{ID: ta}}}
	life := g.rg(200, 3000)
	in.Life = life
	for _, n := range g.p.Nodes {
		for _, s := range n.Subs {
			if s.ID == in.ID && g.p1(80) {
				s.Life = 2 * life
			}
		}
	}
	g.add(op)
	g.t += 1000 + g.n(1000)
	g.add(Op{Kind: "change", Sub: "ownrotate", A: in.ID})
	for k := 0; k < 2; k++ {
		g.t += life * g.rg(200, 480)
		g.add(Op{Kind: "getec", Sub: in.ID})
		g.t += 100 + g.n(900)
		g.add(op)
	}
	if g.p1(30) {
		g.add(Op{Kind: "change", Sub: "attest", A: in.ID})
	}
}

func genC14(g *gen) {
	c := &g.cfg
	c.nTA, c.nInt, c.nLeaf = g.rg(1, 3), g.n(3), g.rg(2, 4)
	c.constr, c.policy, c.odd, c.marks = 8, 12, 12, 75
	c.lifeA, c.lifeB = 60, pick(g.rng, 200, 900, 4000)
	g.federation()
	g.marks()
	g.smart(20)
	if g.p1(12) {
		g.makeByz(1, byzEC, byzSub)
	}
	for k := 0; k < 1+g.n(5); k++ {
		g.cluster(1+g.n(4), g.n(2), func() Op {
			if g.p1(15) {
				op := g.resolveOp()
				op.Kind, op.A, op.Sub = "payload", "", g.bearer().ID
				op.Anchors = unpin(op.Anchors)
				return op
			}
			return g.tmOp()
		})
		if g.p1(25) {
			g.markChange()
		}
		if g.p1(12) {
			g.unattested()
		}
		if g.p1(10) {
			g.faults(g.t, g.t+g.rg(500, 20_000), netFaults)
		}
		g.gap(1 + g.n(3))
	}
}

func genC15(g *gen) {
	c := &g.cfg
	c.nTA, c.nInt, c.nLeaf = g.rg(1, 2), g.n(3), g.rg(2, 5)
	c.constr, c.policy, c.odd, c.marks = 3, 8, 8, 85
	c.lifeA, c.lifeB = 60, pick(g.rng, 300, 4000)
	g.federation()
	g.marks()
	g.smart(20)
	// marks of others
	for _, n := range g.p.Nodes {
		if g.p1(35) {
			o := g.bearer()
			if len(o.Marks) > 0 && o != n {
				n.Marks = append(n.Marks, o.Marks[g.n(len(o.Marks))])
				shuffle(g.rng, n.Marks)
			}
		}
	}
	for k := 0; k < 1+g.n(4); k++ {
		g.cluster(1+g.n(4), g.n(2), func() Op {
			switch g.n(3) {
			case 0:
				op := g.collectOp()
				op.S = []string{g.markType()}
				if g.p1(50) {
					op.Claims = []string{"entity_types", "trust_marks"}
				}
				return op
			case 1:
				op := g.collectOp()
				op.Claims = append([]string{"trust_marks"}, subset(g.rng, 40, "trust_chain", "metadata", "entity_types")...)
				return op
			}
			op := g.resolveOp()
			op.Kind, op.A, op.Sub = "payload", "", g.bearer().ID
			op.Anchors = unpin(op.Anchors)
			return op
		})
		if g.p1(15) {
			g.markChange()
		}
		g.gap(1 + g.n(3))
		if g.p1(20) {
			g.t += 3_700_000
		}
	}
}

// ---- remote endpoints ----

var resolveModes = []string{"good", "good", "chain", "chain", "neg:invalid_trust_chain", "neg404:invalid_trust_chain", "neg:invalid_metadata", "neg:invalid_trust_anchor", "neg:invalid_subject", "neg:invalid_request", "neg:server_error", "neg404:not_found", "neg:",
	"err500", "html", "json", "empty", "errjson200", "typ", "wrongsub", "expired", "future", "nometa", "nullmeta"}

// answers of resolve endpoints that decide nothing
var resolveFailures = []string{"neg:invalid_trust_anchor", "neg:invalid_subject", "neg:invalid_request", "neg:server_error", "neg404:not_found", "neg:",
	"err500", "html", "json", "empty", "errjson200", "typ", "wrongsub", "expired", "future", "nometa", "nullmeta"}

// smart makes the process resolve over the resolve endpoints of the anchors by
// default; none of them gives an answer, so that all is as with local resolution.
func (g *gen) smart(pct int) {
	if !g.p1(pct) {
		return
	}
	g.p.Params["smart"] = 1
	for _, n := range g.p.Nodes {
		delete(n.Hostile, "resolve")
		n.Resolve = ""
		if n.Auth && g.p1(75) {
			n.Resolve = pick(g.rng, resolveFailures...)
		}
	}
}

var collectModes = []string{"good", "good", "good", "empty", "nulls", "err400", "err404", "err500", "err500json", "html", "badjson", "wrong", "list", "void", "null", "nothing"}

func genC18(g *gen) {
	c := &g.cfg
	c.nTA = g.rg(1, 3)
	c.constr, c.policy, c.pPinned, c.pTypes = 10, 20, 0, 25
	g.federation()
	var ends []string
	for _, id := range g.tas {
		if g.p1(80) {
			g.node(id).Resolve = pick(g.rng, resolveModes...)
			ends = append(ends, id)
		}
	}
	if len(ends) == 0 {
		ends = append(ends, g.tas[0])
		g.node(g.tas[0]).Resolve = pick(g.rng, resolveModes...)
	}
	if g.p1(10) {
		g.makeByz(1, byzEC, byzSub)
	}
	g.bare()
	f := func() Op {
		op := g.resolveOp()
		op.Kind = pick(g.rng, "meta", "meta", "payload", "possible", "possible")
		op.A = pick(g.rng, "smart", "smart", "smart", "remote", "")
		op.Anchors = unpin(op.Anchors)
		if g.p1(15) {
			id := pick(g.rng, g.leaves...)
			for _, a := range op.Anchors {
				if a.ID == id {
					id = ""
				}
			}
			if id != "" {
				op.Anchors = append(op.Anchors, AnchorQ{ID: id})
				shuffle(g.rng, op.Anchors)
			}
		}
		if op.A == "remote" {
			op.B = pick(g.rng, ends...)
		}
		return op
	}
	for k := 0; k < 1+g.n(4); k++ {
		g.cluster(1+g.n(4), g.n(2), f)
		if g.p1(30) {
			g.add(Op{Kind: "change", Sub: "resolve", A: pick(g.rng, ends...), B: pick(g.rng, resolveModes...)})
		}
		if g.p1(30) {
			g.faults(g.t, g.t+g.rg(500, 60_000), []string{"drop", "refuse", "reset", "stall", "e500html", "e502json", "e500json", "e503empty", "e404html", "e404json", "e429", "empty200", "html200", "json200", "trunc", "short"})
			if g.p1(60) {
				fr := &g.p.Faults[len(g.p.Faults)-1]
				fr.What, fr.Host = "resolve", ""
			}
		}
		g.gap(1 + g.n(2))
	}
}

// bare makes leaves publish no metadata at all.
func (g *gen) bare() {
	for _, id := range g.leaves {
		if g.p1(12) {
			g.node(id).NoMeta = true
		}
	}
}

func genC19(g *gen) {
	c := &g.cfg
	c.nTA = g.rg(1, 3)
	c.constr, c.policy, c.pPinned = 5, 8, 0
	c.uiInfo, c.marks = 20, 30
	g.federation()
	g.marks()
	var ends []string
	for _, id := range g.tas {
		if g.p1(75) {
			g.node(id).Collect = pick(g.rng, collectModes...)
		}
		ends = append(ends, id)
	}
	g.bare()
	config := append([]string{}, g.tas...)
	if g.p1(50) {
		config = append(config, g.leaves[0])
	}
	shuffle(g.rng, config)
	f := func() Op {
		op := g.restrict(g.collectOp())
		op.Anchors = []AnchorQ{{ID: pick(g.rng, g.tas...)}}
		op.A = pick(g.rng, "smart", "smart", "smart", "remote")
		l := append([]string{}, g.tas...)
		shuffle(g.rng, l)
		for _, id := range l {
			if id != op.Anchors[0].ID && g.p1(75) {
				op.Anchors = append(op.Anchors, AnchorQ{ID: id})
			}
		}
		if g.p1(15) {
			op.Anchors = append(op.Anchors, AnchorQ{ID: pick(g.rng, g.leaves...)})
			shuffle(g.rng, op.Anchors[1:])
		}
		if g.p1(10) {
			op.Anchors[0].ID = pick(g.rng, g.leaves...)
		}
		op.N = g.n(2)
		if g.p1(25) {
			op.J = J{"limit": float64(g.rg(1, 50))}
			if g.p1(50) {
				op.J["from"] = g.anyEntity()
			}
		}
		if op.A == "smart" && g.p1(50) {
			l := append([]string{}, config...)
			op.Slot = 1
			if g.p1(30) && len(l) > 1 {
				op.Slot, l = 2, l[1:]
			}
			if g.p1(80) {
				op.Anchors[0].ID = pick(g.rng, l...)
			}
			op.Anchors = op.Anchors[:1]
			for _, id := range l {
				if id != op.Anchors[0].ID {
					op.Anchors = append(op.Anchors, AnchorQ{ID: id})
				}
			}
			if op.J == nil {
				op.J = J{}
			}
			op.J["config"] = toAny(l)
		}
		return op
	}
	for k := 0; k < 1+g.n(4); k++ {
		g.cluster(1+g.n(4), g.n(2), f)
		if g.p1(30) {
			g.add(Op{Kind: "change", Sub: "collect", A: pick(g.rng, ends...), B: pick(g.rng, collectModes...)})
		}
		if g.p1(30) {
			g.faults(g.t, g.t+g.rg(500, 60_000), listFaults)
			if g.p1(60) {
				fr := &g.p.Faults[len(g.p.Faults)-1]
				fr.What, fr.Host = "collect", ""
			}
		}
		g.gap(1 + g.n(2))
	}
}
