package main

import "fmt"

func init() {
	genFor["C13"] = genC13
}

// genC13: everything at the same time, on shared entities and one cache.
func genC13(g *gen) {
	c := &g.cfg
	c.nTA, c.nInt, c.nLeaf = g.rg(1, 2), g.n(4), g.rg(2, 4)
	c.constr, c.policy, c.odd, c.cycles, c.taChain = 8, 20, 5, 15, 15
	c.lifeA, c.lifeB = pick(g.rng, 8, 20, 120), pick(g.rng, 30, 200, 2000)
	c.lifeB = max(c.lifeB, 2*c.lifeA)
	c.latency = pick(g.rng, 0, 0, 20, 2000)
	c.marks, c.uiInfo = 40, 20
	small := g.p.Seed>>24&1 == 1 // these run with the race detector, which takes its time
	if small {
		c.nTA, c.nInt, c.nLeaf = 1, g.n(2), 2
	}
	g.federation()
	g.marks()
	for _, id := range g.tas {
		n := g.node(id)
		if g.p1(40) {
			n.Resolve = "good"
		}
		if g.p1(40) {
			n.Collect = "good"
		}
		n.TMEnd = true
		n.TMLife = pick(g.rng, 0, 20, 90, 600)
	}
	for k := 0; k < g.rg(1, 2); k++ {
		id := g.leaves[k]
		if n := g.node(id); g.p1(60) && n.Meta["openid_relying_party"] == nil && n.Meta["openid_provider"] == nil {
			n.Meta["openid_relying_party"] = g.metadataOf(n, "openid_relying_party")
		}
		o := g.ownFor(id)
		o.Life = pick(g.rng, 0, 60, 3600)
		o.Anchors = unpin(g.anchors())
		o.ROLife = pick(g.rng, 10, 600)
		g.ownMarks(o, []string{g.tas[0]})
		for _, t := range markTypes {
			if g.p1(50) {
				o.Issue = append(o.Issue, g.issueSpec(t))
			}
			if g.p1(40) {
				o.Owned = append(o.Owned, g.issueSpec(t))
			}
		}
	}
	for i := range g.p.Own {
		for k := range g.p.Own[i].Issue {
			if g.p1(40) {
				g.p.Own[i].Issue[k].Deleg = g.p.Own[g.n(len(g.p.Own))].ID
			}
		}
	}
	if g.p1(50) {
		g.p.Params["grace"] = pick(g.rng, 5, 60, 3600, 100_000)
		g.p.Params["factor"] = pick(g.rng, 0, 25, 50)
	}
	if g.p1(25) {
		g.cacheFaults(g.rg(1000, 1_000_000))
	}
	if g.p1(15) {
		n := g.p.Nodes[g.n(len(g.p.Nodes))]
		if n.Byz == "" && !ownID(g, n.ID) {
			g.makeHostile(n)
			delete(n.Hostile, "tm") // what it gives out is judged elsewhere
			delete(n.Hostile, "token")
		}
	}
	g.smart(20)
	slot := 0
	var slots []string
	rs := g.sticky(60)
	one := func() Op {
		o := &g.p.Own[g.n(len(g.p.Own))]
		switch x := g.n(100); {
		case x < 22:
			op := rs()
			if g.p1(50) {
				op.J = J{"share": float64(g.rg(1, 3))}
			}
			return op
		case x < 28:
			return g.statementOp()
		case x < 40:
			op := g.fullCollectOp()
			if g.p1(25) {
				op = g.restrict(g.collectOp())
				op.Anchors = []AnchorQ{{ID: pick(g.rng, g.tas...)}}
				op.A = pick(g.rng, "smart", "smart", "remote")
				op.Slot = 0
				if op.A == "smart" && g.p1(70) { // one collector for all anchors
					op.Slot = 3
					for _, id := range g.tas {
						if id != op.Anchors[0].ID {
							op.Anchors = append(op.Anchors, AnchorQ{ID: id})
						}
					}
					op.J = J{"config": toAny(g.tas)}
				}
			}
			if g.p1(40) {
				if op.J == nil {
					op.J = J{}
				}
				op.J["share"] = float64(g.rg(1, 2))
			}
			return op
		case x < 48:
			op := g.resolveOp()
			op.Kind, op.A = pick(g.rng, "meta", "payload", "possible"), pick(g.rng, "smart", "smart", "remote")
			op.Anchors = unpin(op.Anchors)
			if op.A == "remote" {
				op.B = pick(g.rng, g.tas...)
			}
			if g.p.Params["smart"] == 1 {
				op.A = ""
			}
			return op
		case x < 56:
			op := g.tmOp()
			if g.p1(60) {
				op.J = J{"share": float64(g.rg(1, 3))}
			}
			return op
		case x < 74:
			return Op{Kind: pick(g.rng, "own", "own", "own", "publish"), A: o.ID}
		case x < 86:
			op := Op{Kind: pick(g.rng, "authurl", "authurl", "code", "opmeta"), A: o.ID, Sub: g.anyEntity(), Types: []string{"openid_provider"}, Anchors: o.Anchors}
			op.J = J{"redirect": o.ID + "/cb", "state": "st", "scope": "openid", "code": "c0de", "params": g.params()}
			if g.p1(50) {
				op.Slot = 1 + g.n(2)
			}
			return op
		case x < 96 || len(slots) == 0:
			op := Op{Kind: "issue", A: o.ID, B: pick(g.rng, "tm", "tm", "deleg", "ro", "ca", "stmt", "rr"), Sub: g.anyEntity(), J: J{}}
			switch op.B {
			case "tm", "deleg":
				op.Types = []string{g.markType()}
				slot++
				s := fmt.Sprint("t", slot)
				op.J["slot"] = s
				slots = append(slots, s)
			case "ro":
				op.N = g.n(2)
				p := g.params()
				if g.p1(50) {
					op.Slot = 1 + g.n(2)
					p["aud"] = "https://shared.example.org"
				}
				op.J["params"] = p
			case "ca":
				op.N = g.n(2)
			}
			return op
		}
		return Op{Kind: "recheck", J: J{"slot": pick(g.rng, slots...)}, N: g.n(3)}
	}
	rounds := 1 + g.n(5)
	if small {
		rounds = 1 + g.n(3)
	}
	for k := 0; k < rounds; k++ {
		same := g.p1(35) // the same thing several times
		op := one()
		for j, m := 0, 2+g.n(8); j < m; j++ {
			if !same || (op.J != nil && op.J["slot"] != nil) {
				op = one()
			}
			g.add(op)
			if g.p1(25) {
				g.t += g.n(3)
			}
		}
		if g.p1(15) {
			g.faults(g.t, g.t+g.rg(100, 30_000), netFaults)
		}
		if g.p1(8) {
			g.changeAny("rotate", "remove", "add", "meta", "gone", "back", "move")
		}
		if g.p1(3) {
			g.restart()
		}
		g.gap(g.n(4))
	}
}

func ownID(g *gen, id string) bool {
	for i := range g.p.Own {
		if g.p.Own[i].ID == id {
			return true
		}
	}
	return false
}
