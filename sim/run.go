package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"time"
	_ "unsafe" // linkname

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
	ihttp "github.com/go-oidfed/lib/internal/http"
	"github.com/go-oidfed/lib/jwks"
)

type runStats struct {
	cacheGets, cacheHits int
}

// opResult is what an operation gave.
type opResult struct {
	op      *Op
	idx     int
	tag     uint64
	t0, t1  time.Duration
	done    bool
	crashed bool
	stall   time.Duration // for how long caches stalled
	err     string
	chains  []*chainResult
	meta    map[string]any
	metaErr string
	raw     string
	valid   bool
	invalid bool
	marks   []markOut
	list    []collected
	out     map[string]any
	seq0    int // requests made before
	seq1    int
	snap    *snapshot
	cached  bool
}

type markOut struct{ typ, jwt string }

type chainResult struct {
	raws []string
	exp  float64
	meta map[string]any
	err  string
	set  bool // meta or err was asked for
}

// runResult is the outcome of a run.
type runResult struct {
	Fails   []failure      `json:"fails,omitempty"`
	Hash    uint64         `json:"hash"`
	Choices uint64         `json:"choices"`
	Steps   uint64         `json:"steps"`
	SimSec  float64        `json:"sim_sec"`
	Reqs    int            `json:"reqs"`
	Ops     int            `json:"ops"`
	Faults  map[string]int `json:"faults,omitempty"`
	Probes  map[string]int `json:"probes,omitempty"`
	Digest  uint64         `json:"digest"`
	Trace   []string       `json:"trace,omitempty"`
	Stats   runStats       `json:"-"`
}

// restyRnd makes the jitter between retries.
//
//go:linkname restyRnd github.com/go-resty/resty/v2.rnd
var restyRnd *rand.Rand

const stepBudget = 40_000_000

// reinit puts all packages of the code under test into the state they have when a
// process starts.
func (w *World) reinit() {
	w.reuse = nil
	reinitAll()
	restyRnd = rand.New(rand.NewSource(int64(w.plan.Seed) + int64(len(w.restarts))))
	tr := &transport{w}
	ihttp.Do().SetTransport(tr)
	http.DefaultTransport = tr
	w.installCache()
	if g, ok := w.plan.Params["grace"]; ok {
		oidfed.ResolverCacheGracePeriod = sec(g)
	}
	oidfed.DefaultMetadataResolver = oidfed.LocalMetadataResolver{}
	if w.plan.Params["smart"] == 1 {
		oidfed.DefaultMetadataResolver = oidfed.SmartRemoteMetadataResolver{}
	}
	if f, ok := w.plan.Params["factor"]; ok {
		oidfed.ResolverCacheLifetimeElapsedGraceFactor = float64(f) / 100
	}
}

// runPlan executes a plan from start to end.
func runPlan(p *Plan, trace bool) *runResult {
	w := newWorld(p)
	races := runtime.DetRaceErrors()
	res := &runResult{Ops: len(p.Ops)}
	runtime.DetStart(p.Seed, p.Sched.Mode, p.Sched.YieldThr, p.Sched.Cutoff, stepBudget)
	state := runtime.DetRun(func() {
		w.main()
		res.SimSec = secs(now())
	})
	_, res.Choices, _, res.Steps, res.Hash = runtime.DetStats()
	runtime.DetStop()
	if state == 2 {
		w.fail(w.prop, "deadlock: no goroutine can continue")
	}
	res.Fails, res.Faults, res.Probes, res.Reqs = w.fails, w.faults, w.probes, len(w.reqs)
	res.Stats = w.stats
	d := mix(res.Hash, res.Steps, uint64(len(w.reqs)))
	for _, q := range w.reqs {
		d = hashStr(mix(d, uint64(q.at), uint64(q.done)), q.url+q.fault+q.body)
	}
	for _, r := range w.results {
		d = hashStr(mix(d, uint64(r.t0), uint64(r.t1)), r.summary())
	}
	for _, f := range w.fails {
		d = hashStr(d, f.Msg)
	}
	res.Digest = d
	for _, s := range newRaces(races) { // not part of the digest, as each is reported once per process
		res.Fails = append(res.Fails, failure{[]string{"C13"}, "data race: " + s})
	}
	if trace {
		res.Trace = w.traceLines()
	}
	return res
}

func (w *World) main() {
	w.reinit()
	w.setupClients()
	time.Sleep(time.Millisecond) // nothing is recorded at time 0
	n := len(w.plan.Ops)
	pending := 0
	doneC := make(chan *opResult, n+1)
	collect := func(until time.Duration) {
		for {
			d := until - now()
			if d <= 0 {
				return
			}
			t := time.NewTimer(d)
			select {
			case r := <-doneC:
				t.Stop()
				pending--
				w.judge(r)
			case <-t.C:
				return
			}
		}
	}
	for i := range w.plan.Ops {
		op := &w.plan.Ops[i]
		collect(msec(op.T))
		switch op.Kind {
		case "change":
			w.applyChange(op)
			continue
		case "restart":
			w.crash(&pending)
			continue
		case "wait": // until everything running is done
			for pending > 0 {
				t := time.NewTimer(6 * time.Hour)
				select {
				case r := <-doneC:
					t.Stop()
					pending--
					w.judge(r)
				case <-t.C:
					w.hung()
					return
				}
			}
			continue
		}
		r := &opResult{op: op, idx: i, tag: uint64(i + 1)}
		w.results = append(w.results, r)
		pending++
		runtime.DetSetTag(r.tag) // inherited
		go func() {
			runtime.DetYield()
			r.t0, r.seq0 = now(), len(w.reqs)
			r.snap = w.snapshot(r)
			defer func() {
				if e := recover(); e != nil {
					r.err = fmt.Sprint("panic: ", e)
					st := string(debug.Stack())
					w.fail(w.prop+" C13 C20", "op %d (%s) panicked: %v in %s", i, op.Kind, e, trimStack(st))
				}
				r.t1, r.seq1, r.done = now(), len(w.reqs), true
				r.stall = w.stalled(r.t0, r.t1)
				doneC <- r
			}()
			w.execute(r)
		}()
		runtime.DetSetTag(0)
	}
	end := now() + 6*time.Hour
	for pending > 0 && now() < end {
		t := time.NewTimer(end - now())
		select {
		case r := <-doneC:
			t.Stop()
			pending--
			w.judge(r)
		case <-t.C:
		}
	}
	if pending > 0 {
		w.hung()
		return
	}
	time.Sleep(70 * time.Second) // background work
	w.finalChecks()
}

func (w *World) hung() {
	for _, r := range w.results {
		if !r.done && !r.crashed {
			w.fail(w.prop+" C13 C20", "op %d (%s %s) never returns", r.idx, r.op.Kind, r.op.Sub)
		}
	}
}

// crash ends the process and starts it again: what was running stops where it is
// and only what is outside of the process is kept.
func (w *World) crash(pending *int) {
	var last uint64
	for _, r := range w.results {
		if !r.done && !r.crashed {
			r.crashed = true
			*pending--
			w.crashed++
		}
		if r.tag > last {
			last = r.tag
		}
	}
	runtime.DetCrash(last)
	for _, q := range w.reqs {
		if q.done == 0 {
			q.done = now()
		}
	}
	w.restarts = append(w.restarts, now())
	w.faults["process:restart"]++
	w.reinit()
	w.setupClients()
}

// trimStack keeps the functions of the code under test.
func trimStack(s string) string {
	var out []string
	lines := strings.Split(s, "\n")
	for i, l := range lines {
		if !strings.HasPrefix(l, "\t") && i+1 < len(lines) && strings.HasPrefix(lines[i+1], "\t") && strings.Contains(l, "(") {
			f := l[:strings.LastIndex(l, "(")]
			if strings.Contains(f, "go-oidfed") && !strings.Contains(f, "verifsim") {
				out = append(out, f)
			}
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return strings.Join(out, " < ")
}

func (q AnchorQ) lib(w *World) oidfed.TrustAnchor {
	ta := oidfed.TrustAnchor{EntityID: q.ID}
	if q.Pin != "" {
		var ks jwks.JWKS
		if err := json.Unmarshal(mustJSON(jwksOf(w.pinKeys(q)...)), &ks); err != nil {
			panic("harness: " + err.Error())
		}
		ta.JWKS = ks
	}
	return ta
}

func (w *World) libAnchors(as []AnchorQ) (out []oidfed.TrustAnchor) {
	for _, a := range as {
		out = append(out, a.lib(w))
	}
	return
}

func anchorIDs(as []AnchorQ) (out []string) {
	for _, a := range as {
		out = append(out, a.ID)
	}
	return
}

func toMap(v any) map[string]any {
	b, err := json.Marshal(v)
	if err != nil {
		return map[string]any{"!marshal": err.Error()}
	}
	var m map[string]any
	if err := json.Unmarshal(b, &m); err != nil {
		return map[string]any{"!unmarshal": err.Error()}
	}
	return m
}

func metaMap(m *oidfed.Metadata) map[string]any {
	if m == nil {
		return map[string]any{}
	}
	return toMap(m)
}

func chainRaws(c oidfed.TrustChain) []string {
	var out []string
	for _, m := range c.Messages() {
		if m == nil {
			out = append(out, "")
			continue
		}
		out = append(out, string(m.RawJWT))
	}
	return out
}

func (w *World) chainOut(c oidfed.TrustChain, withMeta bool) *chainResult {
	cr := &chainResult{raws: chainRaws(c)}
	if len(c) > 0 {
		cr.exp = float64(c.ExpiresAt().Unix())
	}
	if withMeta {
		cr.set = true
		done := w.deriveFrom(cr.raws)
		m, err := c.Metadata()
		done()
		if err != nil {
			cr.err = err.Error()
		} else {
			cr.meta = metaMap(m)
		}
	}
	return cr
}

func (r *opResult) summary() string {
	b, _ := json.Marshal([]any{r.op.Kind, r.err, r.meta, r.metaErr, r.raw, r.valid, r.invalid, len(r.chains), len(r.list), r.out})
	s := string(b)
	for _, c := range r.chains {
		s += fmt.Sprint(c.raws, c.exp, c.err)
		s += string(mustJSON(c.meta))
	}
	return s
}

func (r *opResult) request() apimodel.ResolveRequest {
	return apimodel.ResolveRequest{Subject: r.op.Sub, TrustAnchor: anchorIDs(r.op.Anchors), EntityTypes: r.op.Types}
}

func (r *opResult) setErr(err error) {
	if err != nil {
		r.err = "error: " + err.Error()
	}
}

// resolver gives the resolver for an operation: a new one, or one which did other
// resolutions before.
func (w *World) resolver(op *Op) (tr *oidfed.TrustResolver, release func()) {
	as := w.libAnchors(op.Anchors)
	tr, release = &oidfed.TrustResolver{}, func() {}
	if f, ok := op.J["reuse"].(float64); ok {
		k := int(f)
		if w.reuse == nil {
			w.reuse = map[int]*oidfed.TrustResolver{}
		}
		slots := w.reuse
		old, used := slots[k]
		if old != nil {
			w.probe("resolver used again")
			tr = old
		}
		if old != nil || !used {
			slots[k] = nil
			release = func() { slots[k] = tr }
		}
	}
	tr.TrustAnchors, tr.StartingEntity, tr.Types = as, op.Sub, op.Types
	return tr, release
}

// keptChain is a chain that was handed out, and what it said then.
type keptChain struct {
	r     *opResult
	chain oidfed.TrustChain
	said  []string
}

func statementsOf(c oidfed.TrustChain) (out []string) {
	for _, s := range c {
		out = append(out, stmtRaw(s)+" "+string(mustJSON(s.EntityStatementPayload)))
	}
	return
}

func (w *World) keep(r *opResult, cs oidfed.TrustChains) {
	for _, c := range cs {
		if len(w.kept) >= 24 {
			return
		}
		said := statementsOf(c)
		w.kept = append(w.kept, keptChain{r, c, said})
		for i := range c {
			if d := w.differs(r.op, i, said[i]); d != "" {
				w.fail("C05 C01", "op %d (resolve %s): statement %d of a returned chain is not what its token says: %s", r.idx, r.op.Sub, i, d)
			}
		}
	}
}

// differs tells whether the i-th statement of a chain says something else than its
// token.
func (w *World) differs(op *Op, i int, said string) string {
	raw, js, _ := strings.Cut(said, " ")
	t := decodeJWT(raw)
	if t == nil {
		return "no token"
	}
	var p oidfed.EntityStatementPayload
	if json.Unmarshal(t.payload, &p) != nil {
		return "token cannot be read"
	}
	var a, b map[string]any
	_ = json.Unmarshal([]byte(js), &a)
	_ = json.Unmarshal(mustJSON(p), &b)
	if i == 0 && len(op.Types) > 0 {
		delete(a, "metadata")
		delete(b, "metadata")
	}
	for _, x := range []map[string]any{a, b} {
		for k := range x {
			if !reflect.DeepEqual(a[k], b[k]) {
				return k + " is " + string(mustJSON(a[k])) + ", is " + string(mustJSON(b[k])) + " in the token"
			}
		}
	}
	return ""
}

// checkKept: what was handed out is not changed later.
func (w *World) checkKept() {
	for _, k := range w.kept {
		w.probe("chains looked at again")
		now := statementsOf(k.chain)
		for i := range k.said {
			if i >= len(now) || now[i] != k.said[i] {
				w.fail("C05 C08 C13", "op %d (resolve %s): statement %d of a chain that was handed out changed later", k.r.idx, k.r.op.Sub, i)
				break
			}
		}
	}
}

// execute performs an operation with the code under test.
func (w *World) execute(r *opResult) {
	op := r.op
	switch op.Kind {
	case "resolve":
		tr, release := w.resolver(op)
		var cs oidfed.TrustChains
		switch op.A {
		case "nometa":
			cs = tr.ResolveToValidChainsWithoutVerifyingMetadata()
		case "steps":
			tr.Resolve()
			tr.VerifySignatures()
			cs = tr.Chains()
		case "raw":
			tr.Resolve()
			_ = tr.Chains()
		default:
			cs = tr.ResolveToValidChains()
		}
		release()
		w.keep(r, cs)
		wait := w.inParallel(r, func() {
			for _, c := range cs {
				_ = w.chainOut(c, true)
			}
		})
		for _, c := range cs {
			r.chains = append(r.chains, w.chainOut(c, op.N == 0))
		}
		wait()
	case "meta":
		m, err := w.metaResolver(op).Resolve(r.request())
		r.setErr(err)
		if err == nil {
			r.meta = metaMap(m)
		}
	case "payload":
		p, err := w.metaResolver(op).ResolveResponsePayload(r.request())
		r.setErr(err)
		if err == nil {
			r.meta = metaMap(p.Metadata)
			cr := &chainResult{}
			for _, m := range p.TrustChain {
				cr.raws = append(cr.raws, string(m.RawJWT))
			}
			r.chains = []*chainResult{cr}
			for _, tm := range p.TrustMarks {
				r.marks = append(r.marks, markOut{tm.TrustMarkType, tm.TrustMarkJWT})
			}
		}
	case "possible":
		r.valid, r.invalid = w.metaResolver(op).ResolvePossible(r.request())
	case "getec":
		st, err := oidfed.GetEntityConfiguration(op.Sub)
		r.setErr(err)
		if err == nil {
			r.raw = stmtRaw(st)
		}
	case "fetch":
		n := w.nodes[op.A]
		st, err := oidfed.FetchEntityStatement(n.url("fetch"), op.Sub, op.A)
		r.setErr(err)
		if err == nil {
			r.raw = stmtRaw(st)
		}
	default:
		w.executeMore(r)
	}
}

// inParallel does something in several goroutines, which use the same values as the
// operation itself.
func (w *World) inParallel(r *opResult, f func()) (wait func()) {
	n, _ := r.op.J["share"].(float64)
	var wg sync.WaitGroup
	for k := 0; k < int(n); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					w.fail("C13 C20", "op %d: concurrent use of its results panicked: %v in %s", r.idx, e, trimStack(string(debug.Stack())))
				}
			}()
			runtime.DetYield()
			f()
		}()
	}
	return wg.Wait
}

func stmtRaw(st *oidfed.EntityStatement) string {
	ms := oidfed.TrustChain{st}.Messages()
	if len(ms) == 0 || ms[0] == nil {
		return ""
	}
	return string(ms[0].RawJWT)
}

func (w *World) metaResolver(op *Op) oidfed.MetadataResolver {
	switch op.A {
	case "smart":
		return oidfed.SmartRemoteMetadataResolver{}
	case "remote":
		return oidfed.SimpleRemoteMetadataResolver{ResolveEndpoint: w.nodes[op.B].url("resolve")}
	}
	return oidfed.LocalMetadataResolver{}
}
