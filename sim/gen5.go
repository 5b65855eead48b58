package main

func init() {
	genFor["C20"] = genC20
}

var hostileKinds = []string{"ec", "ec", "ec", "fetch", "fetch", "list", "resolve", "collect", "tm", "token"}

// makeHostile lets an entity answer what it wants at some of its endpoints.
func (g *gen) makeHostile(n *NodeSpec) {
	n.Byz = "hostile"
	n.Hostile = map[string]int{}
	for k := 0; k < 1+g.n(5); k++ {
		n.Hostile[pick(g.rng, hostileKinds...)] = 1 + g.n(1<<30)
	}
	if n.Hostile["fetch"] != 0 || n.Hostile["list"] != 0 {
		n.Auth = true
	}
	if n.Hostile["resolve"] != 0 && n.Resolve == "" {
		n.Resolve = "good"
	}
	if n.Hostile["collect"] != 0 && n.Collect == "" {
		n.Collect = "good"
	}
	if n.Hostile["tm"] != 0 {
		n.TMEnd = true
	}
}

// genC20: some parties answer whatever they want.
func genC20(g *gen) {
	c := &g.cfg
	c.nTA, c.nInt, c.nLeaf = g.rg(1, 2), g.n(4), g.rg(2, 4)
	c.constr, c.policy, c.odd, c.cycles, c.taChain = 8, 20, 5, 10, 10
	c.lifeA, c.lifeB = pick(g.rng, 20, 120), pick(g.rng, 900, 4000)
	c.marks, c.uiInfo = 30, 10
	g.federation()
	g.marks()
	for _, id := range g.tas {
		n := g.node(id)
		if g.p1(40) {
			n.Resolve = "good"
		}
		if g.p1(40) {
			n.Collect = "good"
		}
		n.TMEnd = g.p1(50)
	}
	var bad []string
	for k := 0; k < g.rg(1, 3); k++ {
		n := g.p.Nodes[g.n(len(g.p.Nodes))]
		if n.Byz == "" {
			g.makeHostile(n)
			bad = append(bad, n.ID)
		}
	}
	tokenOnly := ""
	if g.p1(20) { // a provider in good standing, but not at its token endpoint
		for _, id := range g.leaves {
			n := g.node(id)
			if n.Byz == "" && n.Meta["openid_provider"] != nil && tokenOnly == "" {
				n.Byz, n.Hostile = "hostile", map[string]int{"token": 1 + g.n(1<<30)}
				tokenOnly = id
				bad = append(bad, id)
			}
		}
	}
	isBad := func(id string) bool { return contains(bad, id) }
	var own []string
	for _, id := range g.leaves {
		if !isBad(id) && len(own) < 2 && g.p1(50) {
			o := g.ownFor(id)
			o.Life = pick(g.rng, 0, 60, 3600)
			o.Anchors = g.anchors()
			for i := range o.Anchors {
				o.Anchors[i].Pin = ""
			}
			iss := append(append([]string{}, bad...), g.tas[0])
			if g.p1(70) {
				g.ownMarks(o, iss)
			}
			own = append(own, id)
		}
	}
	if g.p1(20) {
		g.cacheFaults(g.rg(1000, 1_000_000))
		g.p.Cache.Stall = 0
	}
	g.smart(15)
	target := func() string {
		if g.p1(45) {
			return pick(g.rng, bad...)
		}
		return g.anyEntity()
	}
	anch := func(id string) []AnchorQ {
		for i := range g.p.Own {
			if g.p.Own[i].ID == id {
				return g.p.Own[i].Anchors
			}
		}
		return nil
	}
	for k := 0; k < 2+g.n(8); k++ {
		for j := 0; j < 1+g.n(4); j++ {
			var op Op
			switch x := g.n(100); {
			case x < 40:
				op = g.resolveOp()
				op.Sub = target()
			case x < 46:
				op = g.statementOp()
				if op.Kind == "getec" {
					op.Sub = target()
				}
			case x < 60:
				op = g.fullCollectOp()
				if g.p1(30) {
					op = g.restrict(g.collectOp())
					op.Anchors = []AnchorQ{{ID: pick(g.rng, g.tas...)}}
					op.A = pick(g.rng, "smart", "remote")
				}
			case x < 72:
				op = g.resolveOp()
				op.Kind, op.A, op.Sub = pick(g.rng, "meta", "payload", "possible"), pick(g.rng, "smart", "smart", "remote"), target()
				op.Anchors = unpin(op.Anchors)
				if op.A == "remote" {
					op.B = pick(g.rng, append(bad, g.tas...)...)
				}
				if g.p.Params["smart"] == 1 { // requests for the issuers of trust marks would be mixed up with its own
					op.A = ""
				}
			case x < 80:
				op = g.tmOp()
				if g.p1(40) {
					op.Sub = target()
				}
			default:
				if len(own) == 0 {
					op = g.resolveOp()
					break
				}
				id := pick(g.rng, own...)
				if g.p1(45) {
					op = Op{Kind: "own", A: id}
					break
				}
				op = Op{Kind: pick(g.rng, "authurl", "code", "opmeta"), A: id, Sub: target(), Types: []string{"openid_provider"}, Anchors: anch(id)}
				if tokenOnly != "" && g.p1(60) {
					op.Kind, op.Sub = "code", tokenOnly
				}
				op.J = J{"redirect": trimSlash(id) + "/cb", "state": "st", "scope": "openid", "code": "c0de", "params": g.params()}
			}
			g.add(op)
			g.gap(g.n(2))
		}
		if g.p1(12) {
			g.faults(g.t, g.t+g.rg(100, 30_000), netFaults)
		}
		if g.p1(8) {
			g.changeAny("rotate", "remove", "add", "meta", "gone", "back", "move")
		}
		g.gap(1 + g.n(3))
	}
}
