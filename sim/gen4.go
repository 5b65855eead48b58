package main

import "fmt"

func init() {
	genFor["C16"] = genC16
	genFor["C17"] = genC17
	genFor["C21"] = genC21
}

// ownFor makes a leaf an entity run with the code under test.
func (g *gen) ownFor(id string) *OwnSpec {
	for i := range g.p.Own {
		if g.p.Own[i].ID == id {
			return &g.p.Own[i]
		}
	}
	n := g.node(id)
	n.Byz, n.Skew, n.Reissue, n.Key2 = "", 0, 0, ""
	g.p.Own = append(g.p.Own, OwnSpec{ID: id})
	return &g.p.Own[len(g.p.Own)-1]
}

var tmModes = []string{"err", "err500", "html", "empty", "wrongsub", "wrongtype", "expired", "future", "typ", "json"}

// ownMarks configures trust marks of an own entity.
func (g *gen) ownMarks(o *OwnSpec, issuers []string) {
	types := append([]string{}, markTypes...)
	shuffle(g.rng, types)
	for k := 0; k < 1+g.n(len(types)); k++ {
		m := OwnMark{Type: types[k], Min: pick(g.rng, 0, 0, 3, 30, 200), Grace: pick(g.rng, 0, 0, 20, 120, 1000)}
		iss := pick(g.rng, issuers...)
		init := func(issuer string) *MarkSpec {
			s := &MarkSpec{Type: m.Type, Issuer: issuer, Sub: o.ID, Iat: -g.n(5000)}
			if g.p1(65) {
				s.Exp = pick(g.rng, g.rg(1, 100), g.rg(100, 5000))
			}
			if g.p1(4) {
				s.Sub = pick(g.rng, g.leaves...)
			}
			if g.p1(4) {
				s.Forge = "typ"
			}
			return s
		}
		switch x := g.n(100); {
		case x < 45:
			m.Issuer = iss
		case x < 65:
			m.Issuer, m.Refresh, m.Init = iss, true, init(iss)
		case x < 75:
			m.Init = init(iss)
		case x < 90:
			m.Self = true
			m.Life = pick(g.rng, 0, 5, 20, 90, 2000)
			if g.p1(25) {
				m.Init = init(o.ID)
				m.Init.Forge = ""
				m.Init.Sub = o.ID
				m.Refresh = g.p1(70)
			}
		case x < 96 && g.node(o.ID).TMEnd:
			m.Issuer = o.ID
		default:
			m.Issuer = "https://nowhere.example.org"
		}
		o.Marks = append(o.Marks, m)
	}
}

func genC16(g *gen) {
	c := &g.cfg
	c.nTA, c.nInt, c.nLeaf = 1, g.n(2), g.rg(2, 3)
	c.constr, c.policy, c.odd, c.cycles, c.taChain = 0, 0, 0, 0, 0
	c.lifeA, c.lifeB = pick(g.rng, 60, 600), pick(g.rng, 900, 9000)
	c.es256 = 20
	g.federation()
	all := append(append(append([]string{}, g.tas...), g.ints...), g.leaves...)
	var issuers []string
	for k := 0; k < g.rg(1, 3); k++ {
		issuers = append(issuers, pick(g.rng, all...))
	}
	issuers = dedupe(issuers)
	for _, i := range issuers {
		n := g.node(i)
		n.TMEnd = true
		n.TMLife = pick(g.rng, 0, 20, 90, 200, 600, 4000)
		if g.p1(15) {
			n.TMMode = pick(g.rng, tmModes...)
		}
	}
	for k := 0; k < g.rg(1, 2); k++ {
		o := g.ownFor(g.leaves[k])
		o.Life = pick(g.rng, 0, 60, 3600)
		o.Anchors = []AnchorQ{{ID: g.tas[0]}}
		g.ownMarks(o, issuers)
	}
	own := func() string { return g.p.Own[g.n(len(g.p.Own))].ID }
	for k := 0; k < 4+g.n(14); k++ {
		g.add(Op{Kind: pick(g.rng, "own", "own", "own", "own", "publish"), A: own()})
		if g.p1(25) {
			g.t += g.n(3)
			g.add(Op{Kind: "own", A: own()})
		}
		if g.p1(12) {
			g.faults(g.t, g.t+pick(g.rng, g.rg(50, 5000), g.rg(5000, 200_000)), []string{"drop", "refuse", "reset", "stall", "e500html", "e502json", "e503empty", "e404json", "e404html", "empty200", "html200", "trunc", "short", "stale", "dup"})
			f := &g.p.Faults[len(g.p.Faults)-1]
			if g.p1(70) {
				f.Host = pick(g.rng, issuers...)
				f.What = pick(g.rng, "tm", "tm", "ec", "")
			}
		}
		if g.p1(12) {
			g.add(Op{Kind: "change", Sub: "tmmode", A: pick(g.rng, issuers...), B: pick(g.rng, append(tmModes, "", "", "", "", "")...)})
		}
		if g.p1(7) {
			i := pick(g.rng, issuers...)
			if g.p1(50) {
				g.add(Op{Kind: "change", Sub: pick(g.rng, "gone", "back"), A: i})
			} else if g.p1(70) {
				g.add(Op{Kind: "change", Sub: "move", A: i})
			} else {
				g.add(Op{Kind: "change", Sub: "rotate", A: i})
			}
		}
		if g.p1(3) {
			g.restart()
		}
		g.t += pick(g.rng, g.n(4), g.rg(100, 6000), g.rg(10_000, 70_000), g.rg(55_000, 65_000), g.rg(60_000, 400_000), g.rg(300_000, 4_000_000))
	}
}

func (g *gen) issueSpec(t string) IssueSpec {
	s := IssueSpec{Type: t, Life: pick(g.rng, 0, 0, 1000, 5000, 60_000, 3_600_000, 400, 1500, 2_000_000_000)}
	if g.p1(40) {
		s.Ref = "https://marks.example.org/ref"
	}
	if g.p1(40) {
		s.Logo = "https://marks.example.org/logo"
	}
	if g.p1(40) {
		s.Extra = J{"x_a": "b", "x_n": float64(g.n(10))}
		s.Incl = g.p1(50)
	}
	return s
}

func (g *gen) params() J {
	j := J{}
	for _, k := range []string{"nonce", "prompt", "acr_values", "login_hint", "x_tags", "display"} {
		if g.p1(30) {
			j[k] = pick(g.rng, "a", "b c", "ü&=?", "consent")
		}
	}
	if g.p1(20) {
		j["ui_locales"] = toAny([]string{"de", "en"})
	}
	return j
}

func genC17(g *gen) {
	c := &g.cfg
	c.nTA, c.nInt, c.nLeaf = 1, g.n(2), g.rg(2, 3)
	c.constr, c.policy, c.odd, c.cycles, c.taChain = 0, 0, 0, 0, 0
	c.lifeA, c.lifeB = pick(g.rng, 60, 600), pick(g.rng, 900, 9000)
	c.es256 = 30
	g.federation()
	issuer := pick(g.rng, g.tas[0], g.leaves[0])
	g.node(issuer).TMEnd = true
	g.node(issuer).TMLife = pick(g.rng, 0, 20, 200, 4000)
	for k := 0; k < g.rg(1, 2); k++ {
		o := g.ownFor(g.leaves[k])
		o.Life = pick(g.rng, 0, 1, 60, 3600, 1_000_000)
		o.Anchors = []AnchorQ{{ID: g.tas[0]}}
		o.ROLife = pick(g.rng, 1, 10, 600, 86400)
		for _, t := range markTypes {
			if g.p1(60) {
				o.Issue = append(o.Issue, g.issueSpec(t))
			}
			if g.p1(40) {
				o.Owned = append(o.Owned, g.issueSpec(t))
			}
		}
		if len(o.Issue) > 0 && g.p1(10) {
			o.Issue = append(o.Issue, g.issueSpec(o.Issue[0].Type))
		}
		if g.p1(50) {
			g.ownMarks(o, []string{issuer})
		}
	}
	for i := range g.p.Own { // delegations between them
		for k := range g.p.Own[i].Issue {
			if g.p1(40) {
				g.p.Own[i].Issue[k].Deleg = g.p.Own[g.n(len(g.p.Own))].ID
			}
		}
	}
	slot := 0
	var slots []string
	for k := 0; k < 5+g.n(20); k++ {
		o := &g.p.Own[g.n(len(g.p.Own))]
		op := Op{Kind: "issue", A: o.ID, B: pick(g.rng, "tm", "tm", "tm", "deleg", "deleg", "ro", "ro", "ca", "stmt", "rr", "rr"), Sub: g.anyEntity(), J: J{}}
		switch op.B {
		case "tm", "deleg":
			op.Types = []string{g.markType()}
			if g.p1(45) {
				op.J["life"] = float64(pick(g.rng, 0, 1, 300, 1000, 1700, 10_000, 90_000, 5_000_000))
			}
			if g.p1(70) {
				slot++
				s := fmt.Sprint("t", slot)
				op.J["slot"] = s
				slots = append(slots, s)
			}
		case "ro", "ca":
			op.N = g.n(2)
			if op.B == "ro" {
				p := g.params()
				if g.p1(20) {
					p["sub"] = "me"
				}
				if g.p1(20) {
					p["client_secret"] = "s"
				}
				if g.p1(20) {
					p["iss"] = "https://else.example.org"
				}
				if g.p1(20) {
					p["exp"] = float64(17)
				}
				if g.p1(20) {
					p["iat"] = float64(17)
				}
				if g.p1(10) {
					p["jti"] = "given"
				}
				if g.p1(30) {
					op.Slot = 1 + g.n(2)
					if g.p1(90) {
						p["aud"] = "https://shared.example.org"
					}
				}
				op.J["params"] = p
			}
		}
		g.add(op)
		if g.p1(20) {
			g.t += g.n(3)
			g.add(op)
			if op.J["slot"] != nil {
				op.J = J{"slot": op.J["slot"].(string) + "b"}
			}
		}
		if g.p1(35) {
			g.add(Op{Kind: pick(g.rng, "own", "publish", "publish"), A: o.ID})
			if g.p1(40) {
				g.t += g.rg(2, 2000)
				g.add(Op{Kind: "getec", Sub: o.ID})
				if g.p1(50) {
					g.add(Op{Kind: "resolve", Sub: o.ID, Anchors: []AnchorQ{{ID: g.tas[0]}}})
				}
			}
		}
		if g.p1(8) {
			g.faults(g.t, g.t+g.rg(50, 100_000), []string{"drop", "refuse", "reset", "stall", "e500html", "e502json", "html200", "trunc", "short", "dup"})
		}
		if g.p1(3) {
			g.restart()
		}
		g.t += pick(g.rng, g.n(4), g.rg(100, 900), g.rg(100, 6000), g.rg(1000, 100_000), g.rg(60_000, 4_000_000))
		for j := 0; j < g.n(3); j++ {
			if len(slots) > 0 {
				g.add(Op{Kind: "recheck", J: J{"slot": pick(g.rng, slots...)}, N: g.n(3)})
				g.t += g.n(3)
			}
		}
	}
}

func genC21(g *gen) {
	c := &g.cfg
	c.nTA, c.nInt, c.nLeaf = g.rg(1, 2), g.n(3), g.rg(2, 4)
	c.constr, c.policy, c.odd, c.cycles = 10, 15, 10, 10
	c.lifeA, c.lifeB = pick(g.rng, 20, 60, 600), pick(g.rng, 900, 4000)
	c.pPinned = 20
	g.federation()
	// there is a provider
	isOP := func(id string) bool { return g.node(id).Meta["openid_provider"] != nil }
	var ops []string
	for _, id := range append(append([]string{}, g.leaves...), g.ints...) {
		if !isOP(id) && len(ops) == 0 && id != g.leaves[0] {
			n := g.node(id)
			n.Meta["openid_provider"] = g.metadataOf(n, "openid_provider")
		}
		if isOP(id) {
			ops = append(ops, id)
		}
	}
	for _, id := range ops {
		m := g.node(id).Meta["openid_provider"]
		if g.p1(15) {
			m["authorization_endpoint"] = trimSlash(id) + "/authz?tenant=1&x=y%26z"
		}
		if g.p1(6) {
			delete(m, "token_endpoint")
		}
		if g.p1(6) {
			delete(m, "authorization_endpoint")
		}
		if g.p1(15) {
			m["token_endpoint"] = pick(g.rng, append(g.tas, ops...)...) + "/token"
		}
		if g.p1(15) {
			m["issuer"] = pick(g.rng, g.near(id), pick(g.rng, ops...), "https://login.example.org/realms/x")
		}
		if g.p1(25) {
			g.node(id).Token = pick(g.rng, tokenModes...)
		}
	}
	for _, n := range g.p.Nodes {
		for _, s := range n.Subs {
			if !isOP(s.ID) || !g.p1(15) {
				continue
			}
			e := J{}
			switch g.n(5) {
			case 4:
				e["issuer"] = J{"value": trimSlash(n.ID) + "/op"}
			case 0:
				e["token_endpoint"] = J{"value": trimSlash(n.ID) + "/token"}
			case 1:
				e["authorization_endpoint"] = J{"value": trimSlash(n.ID) + "/authz?via=policy"}
			case 2:
				e["token_endpoint"] = J{"one_of": toAny([]string{trimSlash(s.ID) + "/token", trimSlash(n.ID) + "/token"})}
			case 3:
				e["token_endpoint"] = J{"default": trimSlash(n.ID) + "/token"}
				e["authorization_endpoint"] = J{"default": trimSlash(n.ID) + "/authz"}
			}
			s.Policy = J{"openid_provider": e}
		}
	}
	g.p.Params["evil"] = 1
	g.smart(15)
	if g.p1(35) {
		g.makeByz(g.rg(1, 2), append(byzEC, byzTime...), append(byzSub, byzTime...))
	}
	var rps []string
	for i, id := range g.leaves {
		if i > 0 && g.p1(60) {
			continue
		}
		o := g.ownFor(id)
		o.Life = pick(g.rng, 0, 3600)
		o.Anchors = g.anchors()
		rps = append(rps, id)
	}
	if g.p1(15) {
		g.p.Cache.Kind = "sim"
		g.p.Cache.GetErr, g.p.Cache.SetErr, g.p.Cache.Damage = pick(g.rng, 0, 30), pick(g.rng, 0, 30), pick(g.rng, 0, 10)
		g.p.Cache.FaultUntil = g.rg(1000, 1_000_000)
	}
	target := func() string {
		if g.p1(85) && len(ops) > 0 {
			return pick(g.rng, ops...)
		}
		return g.anyEntity()
	}
	for k := 0; k < 2+g.n(7); k++ {
		for j := 0; j < 1+g.n(4); j++ {
			rp := pick(g.rng, rps...)
			op := Op{Kind: pick(g.rng, "authurl", "authurl", "code", "code", "opmeta"), A: rp, Sub: target(), Types: []string{"openid_provider"}}
			for i := range g.p.Own {
				if g.p.Own[i].ID == rp {
					op.Anchors = g.p.Own[i].Anchors
				}
			}
			op.J = J{"redirect": rp + "/cb", "state": fmt.Sprint("st", k, "-", j), "scope": pick(g.rng, "openid", "openid profile", ""), "code": pick(g.rng, "c0de", "c+d/e=&x")}
			if g.p1(60) {
				p := g.params()
				if g.p1(10) {
					p[pick(g.rng, "aud", "state", "client_id", "redirect_uri", "response_type", "iss", "exp", "request", "grant_type", "code", "client_assertion")] = "https://evil.example.org/x"
				}
				op.J["params"] = p
			}
			if g.p1(30) {
				op.Slot = 1 + g.n(2)
			}
			g.add(op)
			if g.p1(15) {
				g.add(g.resolveOp())
			}
			g.gap(g.n(2))
		}
		if g.p1(20) {
			g.faults(g.t, g.t+g.rg(100, 30_000), append([]string{"mitm", "mitm", "swap", "stale"}, netFaults...))
		}
		if g.p1(30) {
			g.changeAny("rotate", "remove", "add", "constr", "policy", "meta", "gone", "back", "move")
		}
		if g.p1(20) && len(ops) > 0 {
			g.add(Op{Kind: "change", Sub: "token", A: pick(g.rng, ops...), B: pick(g.rng, append(tokenModes, "", "")...)})
		}
		g.gap(1 + g.n(3))
	}
}

var tokenModes = []string{"err", "err200", "err401", "html", "html502", "json500", "json403", "tok403", "empty", "list", "null", "wrong"}
