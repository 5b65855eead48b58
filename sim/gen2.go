package main

import "strings"

func init() {
	genFor["C05"] = genC05
	genFor["C06"] = genC06
	genFor["C07"] = genC07
	genFor["C08"] = genC08
	genFor["C09"] = genC09
}

// changeAny makes one or two changes of the federation.
func (g *gen) changeAny(kinds ...string) {
	for k := 0; k < 1+g.n(2); k++ {
		kind := pick(g.rng, kinds...)
		if kind == "gone" || kind == "back" {
			n := g.p.Nodes[g.n(len(g.p.Nodes))]
			g.add(Op{Kind: "change", Sub: kind, A: n.ID})
			if kind == "gone" && g.p1(60) {
				g.p.Ops = append(g.p.Ops, Op{T: g.t + g.rg(1000, 900_000), Kind: "change", Sub: "back", A: n.ID})
			}
			continue
		}
		g.change(kind)
	}
}

// sticky makes resolutions that come back to the same query most of the time.
func (g *gen) sticky(pct int) func() Op {
	op0 := g.resolveOp()
	return func() Op {
		op := g.resolveOp()
		if g.p1(pct) {
			op.Sub, op.Anchors, op.Types = op0.Sub, op0.Anchors, op0.Types
			if op.Kind != "resolve" {
				op.Anchors = unpin(op.Anchors)
			}
		}
		return op
	}
}

// mixed replaces a part of the operations by other kinds, mostly the same ones.
func (g *gen) mixed(pct int, f func() Op) func() Op {
	if !g.p1(50) {
		return f
	}
	other := func() Op {
		switch g.n(6) {
		case 0, 1:
			return g.collectOp()
		case 2:
			return g.fullCollectOp()
		case 3:
			return g.statementOp()
		}
		return g.tmOp()
	}
	op := other()
	return func() Op {
		if !g.p1(pct) {
			return f()
		}
		if g.p1(30) {
			return other()
		}
		return op
	}
}

// restart adds a restart of the process.
func (g *gen) restart() { g.add(Op{Kind: "restart"}) }

func (g *gen) cacheFaults(until int) {
	c := &g.p.Cache
	c.Kind = pick(g.rng, "sim", "sim", "sim", "redis", "redis", "none")
	for _, f := range []*int{&c.GetErr, &c.SetErr, &c.Lose, &c.Damage, &c.Down} {
		if g.p1(40) {
			*f = pick(g.rng, 3, 10, 30, 100)
		}
	}
	if g.p1(25) {
		c.Stall = pick(g.rng, 2, 10)
	}
	c.FaultUntil = until
}

func genC05(g *gen) {
	c := &g.cfg
	c.policy, c.constr, c.customTypes = 65, 3, 30
	c.nInt, c.nLeaf = g.rg(1, 5), g.rg(1, 4)
	c.pPinned, c.pTypes, c.odd = 0, 12, 8
	if g.p1(20) {
		c.policy = 100
	}
	c.oddPolicy = pick(g.rng, 0, 0, 5, 15)
	g.federation()
	if g.p1(25) {
		g.p.Cache = CacheSpec{Kind: "sim", Lose: 30, FaultUntil: 1 << 30}
	}
	f := g.sticky(30)
	for k := 0; k < 1+g.n(3); k++ {
		g.cluster(2+g.n(6), g.n(2), f)
		if g.p1(15) {
			g.change(pick(g.rng, "policy", "meta"))
		}
		g.gap(1 + g.n(3))
	}
}

func genC06(g *gen) {
	c := &g.cfg
	c.lifeA, c.lifeB = pick(g.rng, 10, 40), pick(g.rng, 60, 150, 400)
	c.pPinned = pick(g.rng, 0, 0, 40)
	c.policy, c.constr = 20, 10
	c.marks = pick(g.rng, 0, 0, 50)
	g.federation()
	g.marks()
	if g.p1(20) {
		g.p.Cache.Kind = pick(g.rng, "sim", "redis")
		g.p.Params["cache_survives"] = 1
	}
	if g.p1(30) {
		g.p.Params["grace"] = pick(g.rng, 0, 5, 60, 3600)
		g.p.Params["factor"] = pick(g.rng, 0, 50, 75, 100)
	}
	f := g.mixed(50, g.sticky(80))
	for k := 0; k < 2+g.n(4); k++ {
		g.cluster(1+g.n(3), 1, f)
		if g.p1(80) {
			g.changeAny("rotate", "rotate", "ownrotate", "attest", "remove", "remove", "add", "constr", "policy", "hints", "meta", "gone", "back", "move")
		}
		if g.p1(15) {
			g.restart()
		}
		// some queries while old statements are alive, some after
		for j := 0; j < g.n(3); j++ {
			g.t += g.rg(100, c.lifeB*600)
			g.add(f())
		}
		g.t += (c.lifeB + g.rg(5, 100)) * 1000
		if g.p1(20) {
			g.t += 3_610_000
		} else if g.p1(20) {
			g.steady()
		} else if g.p1(35) {
			g.lifted(f)
		}
	}
	g.cluster(1+g.n(2), 1, f)
}

// steady asks for the same collection again and again, so that nothing it uses is ever
// unused for long, until everything it used in the beginning must have been replaced.
func (g *gen) steady() {
	op := g.collectOp()
	g.add(op)
	if g.p1(70) {
		g.changeAny("remove", "remove", "add", "add", "gone", "back")
	}
	step := pick(g.rng, 8, 20, 30, 45, 58) * 60_000
	for left := 3_700_000; left > 0; left -= step {
		g.t += step + g.n(2000)
		if g.p1(90) {
			g.add(op)
		}
	}
	g.add(op)
}

// lifted puts something in the way that is said by a statement of a short life, and takes it
// away again: once that statement expired the way is open, however long the others live.
func (g *gen) lifted(f func() Op) {
	op := g.resolveOp()
	if g.p1(50) {
		op = f()
	}
	x := g.node(op.Sub)
	if x == nil {
		return
	}
	var a *NodeSpec
	var s *SubSpec
	for k := 0; k < 1+g.n(3); k++ { // some levels up
		if a != nil {
			x = a
		}
		if len(x.Hints) == 0 {
			break
		}
		n := g.node(pick(g.rng, x.Hints...))
		if n == nil {
			break
		}
		for _, y := range n.Subs {
			if y.ID == x.ID {
				a, s = n, y
			}
		}
	}
	if a == nil {
		return
	}
	short := g.rg(4, 25)
	a.Reissue = 0
	on, off := Op{Kind: "change", A: a.ID}, Op{Kind: "change", A: a.ID}
	switch g.n(4) {
	case 0, 1:
		s.Life = short
		on.Sub, on.B = "constr", s.ID
		on.J = pick(g.rng, J{"naming_constraints": J{"excluded": toAny([]string{strings.TrimSuffix(hostOf(s.ID), ":8443")})}},
			J{"naming_constraints": J{"permitted": toAny([]string{"nobody.example.net"})}}, J{"allowed_entity_types": toAny(nil)})
		off.Sub, off.B, off.J = "constr", s.ID, s.Constr
	case 2:
		a.Life = short
		on.Sub, off.Sub = "nofetch", "fetch"
	case 3:
		a.Life = short
		on.Sub, off.Sub = "hints", "hints"
		off.S = a.Hints
	}
	if g.p1(25) {
		on, off = off, on
	}
	g.add(on)
	g.t += (g.cfg.lifeB + g.rg(5, 100)) * 1000
	g.add(op)
	g.t += g.rg(500, short*900)
	g.add(off)
	for k := 0; k < 1+g.n(2); k++ {
		g.t += short*1000 + g.rg(3000, 20_000)
		g.add(op)
	}
	g.t += g.rg(5000, g.cfg.lifeB*1000)
	g.add(op)
}

func genC07(g *gen) {
	c := &g.cfg
	c.lifeA, c.lifeB = pick(g.rng, 20, 120), pick(g.rng, 150, 900)
	c.pPinned = 5
	c.marks = pick(g.rng, 0, 0, 50)
	g.federation()
	g.marks()
	if g.p1(30) {
		g.p.Params["grace"] = pick(g.rng, 0, 30, 3600)
		g.p.Params["factor"] = pick(g.rng, 0, 50, 75)
	}
	if g.p1(30) {
		g.p.Params["cache_survives"] = 1
	}
	f := g.mixed(50, g.sticky(60))
	if g.p1(50) {
		g.cluster(1+g.n(2), 1, f)
		g.gap(1 + g.n(2))
	}
	for k := 0; k < 1+g.n(3); k++ {
		from := g.t
		for j := 0; j < 1+g.n(4); j++ {
			g.add(f())
			g.t += pick(g.rng, g.n(5), g.rg(100, 20_000), g.rg(1000, 120_000))
			if g.p1(8) {
				g.changeAny("gone")
			}
			if g.p1(10) {
				g.restart()
			}
		}
		to := g.t + g.rg(0, 3000)
		g.faults(from, to, netFaults)
		g.t = to + g.rg(0, 2000)
		if g.p1(15) {
			g.restart()
		}
		if g.p1(30) { // what is in the air may still be disturbed
			g.add(Op{Kind: "wait"})
		}
		g.cluster(1+g.n(4), g.n(2), f)
		g.gap(1 + g.n(3))
		g.add(f())
	}
}

func genC08(g *gen) {
	c := &g.cfg
	c.nTA = g.rg(1, 3)
	c.pPinned, c.pTypes = pick(g.rng, 0, 40, 60), pick(g.rng, 0, 30, 60)
	c.lifeA, c.lifeB = 300, 2000
	c.policy, c.constr = 30, 15
	g.federation()
	subs := []string{g.anyEntity()}
	if g.p1(50) {
		subs = append(subs, g.anyEntity())
	}
	f := func() Op {
		op := g.resolveOp()
		if g.p1(85) {
			op.Sub = pick(g.rng, subs...)
		}
		return op
	}
	for k := 0; k < 1+g.n(4); k++ {
		g.cluster(2+g.n(6), g.n(2), f)
		g.gap(1 + g.n(2))
	}
}

func genC09(g *gen) {
	c := &g.cfg
	c.lifeA, c.lifeB = pick(g.rng, 20, 300), pick(g.rng, 300, 2000)
	c.policy, c.constr = 35, 15
	c.customTypes = 30
	c.marks = pick(g.rng, 0, 0, 50)
	g.federation()
	g.marks()
	g.cacheFaults(g.rg(1000, 1_500_000))
	if g.p1(30) {
		g.p.Params["cache_survives"] = 1
	}
	if g.p1(30) {
		g.p.Params["grace"] = pick(g.rng, 0, 30, 3600)
		g.p.Params["factor"] = pick(g.rng, 0, 50, 75)
	}
	f := g.mixed(50, g.sticky(70))
	for k := 0; k < 2+g.n(4); k++ {
		g.cluster(1+g.n(5), g.n(2), f)
		if g.p1(10) {
			g.restart()
		}
		g.gap(1 + g.n(2))
	}
}
