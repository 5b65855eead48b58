package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
)

// snapshot is what the model expects at the start of an operation.
type snapshot struct {
	paths []mpath
	cut   bool
	metas map[string]refMeta
	pins  map[string][]any
	extra any
}

type refMeta struct {
	m  map[string]any
	st tri
}

func (w *World) snapshot(r *opResult) *snapshot {
	op := r.op
	s := &snapshot{}
	switch op.Kind {
	case "resolve", "meta", "payload", "possible", "authurl", "code", "opmeta":
		s.paths, s.cut = w.paths(op.Sub, op.Anchors, op.Types)
		s.metas = map[string]refMeta{}
		for _, p := range s.paths {
			if p.cert == no {
				continue
			}
			c := w.modelChain(p, now())
			if c == nil {
				s.metas[p.key()] = refMeta{nil, polUnknown}
				continue
			}
			m, t := refMetadata(c, op.Types)
			s.metas[p.key()] = refMeta{m, t}
		}
		s.pins = map[string][]any{}
		for _, a := range op.Anchors {
			if k, pinned, unpinned := w.pinned(a.ID, op.Anchors); pinned && !unpinned {
				s.pins[a.ID] = k
			}
		}
	default:
		s.extra = w.snapshotMore(r)
	}
	return s
}

// tags names the properties an inexact answer counts against.
func (w *World) tags(r *opResult, base string) string {
	t := base
	if len(w.changes) > 0 && w.changes[0] < r.t0 {
		t += " C06"
	}
	for _, f := range w.faultAt {
		if f.at < r.t1 {
			t += " C07"
			break
		}
	}
	if len(w.restarts) > 0 {
		t += " C07"
	}
	if len(w.queries) > 1 {
		t += " C08"
	}
	if len(w.cacheFaults) > 0 {
		t += " C09"
	}
	if w.hasByz() {
		t += " C20"
	}
	for _, o := range w.results {
		if o != r && o.t0 <= r.t1 && (!o.done || o.t1 >= r.t0) {
			t += " C13"
			break
		}
	}
	return t
}

func (w *World) hasByz() bool {
	for _, n := range w.nodes {
		if n.Byz != "" {
			return true
		}
		for _, s := range n.Subs {
			if s.Byz != "" {
				return true
			}
		}
	}
	return false
}

// quiet tells whether the answer of an operation can be predicted exactly: no change
// and no expiry on the way and nothing outdated still in use.
func (w *World) quiet(r *opResult, involved map[string]bool) bool {
	for _, c := range w.changes {
		if c >= r.t0-time.Second && c <= r.t1+time.Second {
			return false
		}
	}
	for _, c := range w.modes {
		if c >= r.t0-time.Second && c <= r.t1+time.Second {
			return false
		}
	}
	if len(w.changes) > 0 && r.t0 <= w.oldUntil+2*time.Second {
		return false
	}
	if w.poison > 0 && r.t0 <= w.poison+2*time.Second {
		return false
	}
	for _, s := range w.ledger {
		if (s.kind == "ec" || s.kind == "sub") && s.exp >= r.t0-2*time.Second && s.exp <= r.t1+2*time.Second {
			if involved == nil || involved[s.by] {
				return false
			}
		}
	}
	return true
}

func (r *opResult) stalled() time.Duration { return r.stall }

// stall is a time during which a cache did not answer.
type stall struct{ from, to time.Duration }

// stalled is for how long caches did not answer between two times.
func (w *World) stalled(t0, t1 time.Duration) (d time.Duration) {
	for _, s := range w.stalls {
		if f, t := max(s.from, t0), min(s.to, t1); t > f {
			d += t - f
		}
	}
	return d
}

// judge checks the answer of an operation.
func (w *World) judge(r *opResult) {
	if r.crashed || strings.HasPrefix(r.err, "panic") {
		return
	}
	w.checkDuration(r)
	switch r.op.Kind {
	case "resolve":
		w.judgeResolve(r)
	case "meta", "payload":
		if r.op.A == "" {
			w.judgeMeta(r)
		} else {
			w.judgeMore(r)
		}
	case "possible":
		if r.op.A == "" {
			w.judgePossible(r)
		} else {
			w.judgeMore(r)
		}
	case "getec", "fetch":
		w.judgeStatement(r)
	default:
		w.judgeMore(r)
	}
	if q := r.queryKey(); q != "" {
		w.queries[q] = true
	}
}

func (r *opResult) queryKey() string {
	switch r.op.Kind {
	case "resolve", "meta", "payload", "possible", "collect", "tmverify", "smart", "authurl", "code":
		return string(mustJSON([]any{r.op.Sub, r.op.Anchors, r.op.Types}))
	}
	return ""
}

// checkDuration: an operation takes no longer than its own requests do.
func (w *World) checkDuration(r *opResult) {
	allow := r.stalled() + time.Second
	n := 0
	for _, q := range w.reqs[r.seq0:r.seq1] {
		if q.tag != r.tag {
			continue
		}
		n++
		d := q.done
		if d == 0 || d > r.t1 {
			d = r.t1
		}
		allow += d - q.at
		if q.err {
			allow += 3 * time.Second
		}
	}
	if isOwnOp(r.op.Kind) { // waits for refreshes others have started
		for _, q := range w.reqs {
			if q.tag == r.tag || q.at > r.t1 || (q.done != 0 && q.done < r.t0) || (q.what != "tm" && q.what != "ec" && q.what != "unknown") {
				continue
			}
			d := q.done
			if d == 0 || d > r.t1 {
				d = r.t1
			}
			allow += d - max(q.at, r.t0)
			if q.err {
				allow += 3 * time.Second
			}
		}
	}
	if r.op.Kind == "collect" {
		allow += sec(5)
	}
	if d := r.t1 - r.t0; d > allow {
		w.fail("C13 C20", "op %d (%s %s) took %v but its %d requests and cache waits account for %v only", r.idx, r.op.Kind, r.op.Sub, d, n, allow)
	}
	w.probe("durations")
}

func chainIDs(c []*rawJWT) []string {
	ids := []string{}
	for i, s := range c {
		if i == len(c)-1 && len(c) > 1 {
			break
		}
		ids = append(ids, s.str("iss"))
	}
	return ids
}

func short(ids []string) string { return strings.Join(ids, " > ") }

// checkChain checks one returned chain on its own and returns its statements.
func (w *World) checkChain(r *opResult, raws []string, what string) []*rawJWT {
	op := r.op
	var c []*rawJWT
	bad := func(props, f string, a ...any) {
		w.fail(props, "op %d (%s %s): "+what+": "+f, append([]any{r.idx, op.Kind, op.Sub}, a...)...)
	}
	for i, raw := range raws {
		j := decodeJWT(raw)
		if j == nil {
			bad("C01 C09", "statement %d is not a token", i)
			return nil
		}
		c = append(c, j)
	}
	n := len(c)
	if n == 0 || n == 2 {
		bad("C01", "chain of %d statements", n)
		return nil
	}
	w.probe("chains")
	last := c[n-1]
	anchor := last.str("iss")
	isA := func(id string) bool {
		for _, a := range op.Anchors {
			if a.ID == id {
				return true
			}
		}
		return false
	}
	ids := chainIDs(c)
	name := short(ids)
	if !isA(anchor) || last.str("sub") != anchor {
		bad("C01 C08", "%s ends at %s/%s, which is no requested anchor", name, anchor, last.str("sub"))
	}
	if c[0].str("iss") != op.Sub || c[0].str("sub") != op.Sub {
		bad("C01", "%s starts with the configuration of %s/%s, not of %s", name, c[0].str("iss"), c[0].str("sub"), op.Sub)
	}
	seen := map[string]bool{}
	for i, id := range ids {
		if seen[id] {
			bad("C04", "%s has a cycle", name)
		}
		seen[id] = true
		if i < len(ids)-1 && isA(id) {
			bad("C04", "%s passes the requested anchor %s", name, id)
		}
	}
	below := []string{op.Sub}
	for i := 1; i < n-1; i++ {
		if c[i].str("sub") != below[len(below)-1] || c[i].str("iss") == c[i].str("sub") {
			bad("C01", "%s: statement %d is about %s, not about %s", name, i, c[i].str("sub"), below[len(below)-1])
		}
		below = append(below, c[i].str("iss"))
	}
	if n > 1 && below[len(below)-1] != anchor {
		bad("C01", "%s: last statement by %s, but the anchor is %s", name, below[len(below)-1], anchor)
	}
	akeys := []any{last.claims["jwks"]}
	tagSig := "C01"
	if p := r.snap.pins[anchor]; p != nil {
		akeys = p
		tagSig = "C01 C08"
	}
	signedBy := func(j *rawJWT, ks []any) bool {
		for _, k := range ks {
			if j.verifiedBy(k) {
				return true
			}
		}
		return false
	}
	for i, s := range c {
		if s.typ() != "entity-statement+jwt" {
			bad("C01", "%s: statement %d has type %q", name, i, s.typ())
		}
		if i < n-2 {
			if !s.verifiedBy(c[i+1].claims["jwks"]) {
				bad("C01", "%s: signature of statement %d is not by a key its superior attests", name, i)
			}
		} else if !signedBy(s, akeys) {
			bad(tagSig, "%s: signature of statement %d is not by a key of the anchor", name, i)
		}
		if w.poison == 0 {
			if l := w.ledger[s.raw]; l == nil {
				bad("C01", "%s: statement %d was never issued", name, i)
			} else if l.by != s.str("iss") && l.kind != "hostile" {
				bad("C01", "%s: statement %d names %s as issuer but was given by %s", name, i, s.str("iss"), l.by)
			}
		}
	}
	// validity
	tol := r.stalled() + time.Second
	minExp := -1.0
	usedAt := r.t1
	switch r.op.Kind {
	case "collect":
		usedAt = r.t0 // the chain was built at some time during the collection
	case "payload":
		usedAt = r.t0 // trust marks are verified after the chain
	}
	for i, s := range c {
		iat, exp := s.num("iat"), s.num("exp")
		if s.claims["exp"] != nil {
			if ofUnix(exp)+tol <= usedAt {
				t := "C02"
				if len(w.changes) > 0 || len(w.results) > 1 {
					t += " C06"
				}
				bad(t, "%s: statement %d expired at %v but is used at %v", name, i, ofUnix(exp), usedAt)
			}
			if minExp < 0 || exp < minExp {
				minExp = exp
			}
		}
		if ofUnix(iat) > r.t1+2*time.Second {
			bad("C02", "%s: statement %d is issued in the future (%v, now %v)", name, i, ofUnix(iat), r.t1)
		}
	}
	// constraints, from the statements themselves
	for i := 1; i < n-1; i++ {
		cons, _ := c[i].claims["constraints"].(map[string]any)
		if cons == nil {
			continue
		}
		w.probe("constraints on a returned chain")
		var tf, ta [][]string
		for k := 0; k < i; k++ {
			if k == 0 {
				m, _ := c[0].claims["metadata"].(map[string]any)
				ts := []string{}
				for t, v := range m {
					if v != nil {
						ts = append(ts, t)
					}
				}
				sort.Strings(ts)
				tf, ta = append(tf, filterTypes(ts, op.Types)), append(ta, ts)
				continue
			}
			if nd := w.nodes[ids[k]]; nd != nil {
				ts := nd.types()
				if nd.Byz != "" {
					ts = nil
				}
				tf, ta = append(tf, ts), append(ta, ts)
			}
		}
		if constraintsHold(cons, ids[:i], tf) == no && constraintsHold(cons, ids[:i], ta) == no {
			bad("C03", "%s violates the constraints %s set by %s", name, mustJSON(cons), ids[i])
		}
	}
	_ = minExp
	return c
}

func (w *World) isQuietFor(r *opResult) bool {
	inv := map[string]bool{}
	for _, p := range r.snap.paths {
		for _, id := range p.ids {
			inv[id] = true
		}
	}
	inv[r.op.Sub] = true
	return !r.snap.cut && w.quiet(r, inv)
}

// reliable are the paths none of whose entities was disturbed during the operation.
func (w *World) reliable(r *opResult) []mpath {
	f := w.faultedHosts(r.t0, r.t1)
	if f[""] {
		return nil
	}
	var out []mpath
	for _, p := range r.snap.paths {
		ok := p.cert == must
		for _, id := range p.ids {
			if f[id] {
				ok = false
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

func (w *World) judgeResolve(r *opResult) {
	op := r.op
	if op.A == "raw" {
		return
	}
	seen := map[string]int{}
	got := map[string]*chainResult{}
	for _, cr := range r.chains {
		c := w.checkChain(r, cr.raws, "returned chain")
		if c == nil {
			continue
		}
		k := strings.Join(chainIDs(c), " ")
		seen[k]++
		got[k] = cr
		min := -1.0
		for _, s := range c {
			if e := s.num("exp"); s.claims["exp"] != nil && (min < 0 || e < min) {
				min = e
			}
		}
		if min >= 0 && float64(int64(min)) != cr.exp {
			w.fail("C02", "op %d: chain %s reports expiry %v, the earliest expiry is %v", r.idx, k, cr.exp, min)
		}
		if cr.set {
			w.checkChainMeta(r, k, c, cr)
		}
	}
	for k, n := range seen {
		if n > 1 {
			w.fail("C04 C13", "op %d (resolve %s): chain %s is returned %d times", r.idx, op.Sub, k, n)
		}
	}
	w.probe("resolutions")
	if !w.isQuietFor(r) {
		w.probe("resolutions not predicted")
		return
	}
	w.probe("resolutions predicted")
	for _, p := range w.reliable(r) {
		k := p.key()
		if seen[k] > 0 {
			continue
		}
		if op.A != "nometa" && op.A != "steps" {
			rm := r.snap.metas[k]
			if rm.st == polUnknown || rm.st == polErr {
				continue
			}
		}
		base := "C04"
		if w.hasConstraints(p) {
			base = "C04 C03"
		}
		if len(r.snap.pins) > 0 {
			base += " C01"
		}
		w.fail(w.tags(r, base), "op %d (resolve %s for %s types %v %s): valid chain %s is missing from the answer (%d chains)", r.idx, op.Sub, mustJSON(op.Anchors), op.Types, op.A, k, len(r.chains))
	}
	// a chain through what does not exist any more
	for k := range seen {
		found := false
		for _, p := range r.snap.paths {
			if p.key() == k {
				found = true
			}
		}
		if !found && !w.hasByz() {
			w.fail(w.tags(r, "C01"), "op %d (resolve %s): chain %s is returned but does not exist in the federation", r.idx, op.Sub, k)
		}
	}
	if len(r.chains) == 0 {
		w.probe("resolutions without a chain")
	}
}

func (w *World) hasConstraints(p mpath) bool {
	for i := 1; i < len(p.ids); i++ {
		if s := w.nodes[p.ids[i]].sub(p.ids[i-1]); s != nil && s.Constr != nil {
			return true
		}
	}
	return false
}

// metaDiff compares resolved metadata with the reference.
func metaDiff(got, want map[string]any) string {
	g := normalMeta(got)
	var d []string
	for t := range want {
		if _, ok := g[t]; !ok {
			d = append(d, fmt.Sprintf("type %s is missing", t))
		}
	}
	for t, gv := range g {
		wv, ok := want[t]
		if !ok {
			d = append(d, fmt.Sprintf("type %s should not be there", t))
			continue
		}
		gm, _ := gv.(map[string]any)
		wm, _ := wv.(map[string]any)
		for c, x := range wm {
			if !reflect.DeepEqual(gm[c], x) {
				d = append(d, fmt.Sprintf("%s.%s is %v, should be %v", t, c, gm[c], x))
			}
		}
		for c, x := range gm {
			if _, ok := wm[c]; !ok {
				d = append(d, fmt.Sprintf("%s.%s is %v, should be absent", t, c, x))
			}
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

func hostileChain(w *World, c []*rawJWT) bool {
	for _, s := range c {
		if l := w.ledger[s.raw]; l == nil || l.kind == "hostile" {
			return true
		}
	}
	return false
}

func (w *World) checkChainMeta(r *opResult, k string, c []*rawJWT, cr *chainResult) {
	if hostileChain(w, c) {
		return
	}
	want, st := refMetadata(c, r.op.Types)
	filtered := r.op.A != "nometa" && r.op.A != "steps"
	switch st {
	case polUnknown:
		w.probe("metadata not predicted")
	case polErr:
		w.probe("metadata rejected by policy")
		if filtered {
			w.fail(w.tags(r, "C05"), "op %d: chain %s is reported as valid although its policies conflict or reject the metadata", r.idx, k)
		} else if cr.err == "" {
			w.fail(w.tags(r, "C05"), "op %d: chain %s gives metadata although its policies conflict or reject it", r.idx, k)
		}
	case polOK:
		w.probe("metadata predicted")
		if cr.err != "" {
			w.fail(w.tags(r, "C05"), "op %d: chain %s: metadata fails with %q, should be %s", r.idx, k, cr.err, mustJSON(want))
			return
		}
		if d := metaDiff(cr.meta, want); d != "" {
			w.fail(w.tags(r, "C05"), "op %d: chain %s: wrong metadata: %s", r.idx, k, d)
		}
	}
}

// candidates sorts the model's paths into those which surely give metadata and those
// which may.
func (w *World) candidates(r *opResult) (sure, all []mpath, unknown bool) {
	rel := map[string]bool{}
	for _, p := range w.reliable(r) {
		rel[p.key()] = true
	}
	for _, p := range r.snap.paths {
		switch r.snap.metas[p.key()].st {
		case polUnknown:
			unknown = true
			all = append(all, p)
		case polOK:
			all = append(all, p)
			if p.cert == must && rel[p.key()] {
				sure = append(sure, p)
			}
		case polErr:
			if p.cert != must {
				unknown = true
			}
		}
	}
	return
}

func (w *World) judgeMeta(r *opResult) {
	op := r.op
	var viaChain bool
	if op.Kind == "payload" && r.err == "" {
		viaChain = true
		if len(r.chains) != 1 || len(r.chains[0].raws) == 0 {
			w.fail("C05 C01", "op %d: resolve response without a trust chain", r.idx)
			return
		}
		c := w.checkChain(r, r.chains[0].raws, "chain of the resolve response")
		if c == nil {
			return
		}
		cr := &chainResult{raws: r.chains[0].raws, meta: r.meta, set: true}
		w.checkChainMeta(r, strings.Join(chainIDs(c), " "), c, cr)
		w.judgeMarks(r, c)
	}
	if !w.isQuietFor(r) {
		return
	}
	sure, all, unknown := w.candidates(r)
	if w.hasByz() {
		unknown = true
	}
	if r.err != "" {
		if len(sure) > 0 {
			w.fail(w.tags(r, "C05 C04"), "op %d (%s %s): fails with %q although the chain %s is valid", r.idx, op.Kind, op.Sub, r.err, sure[0].key())
		}
		return
	}
	minSure := 1 << 30
	for _, p := range sure {
		if len(p.ids) < minSure {
			minSure = len(p.ids)
		}
	}
	if viaChain {
		n := len(r.chains[0].raws)
		if n > 1 {
			n--
		}
		if effLen(n) > effLen(minSure) {
			w.fail(w.tags(r, "C05"), "op %d: chain of %d entities chosen although there is one of %d", r.idx, n, minSure)
		}
	}
	if unknown {
		return
	}
	if len(all) == 0 {
		w.fail(w.tags(r, "C05 C01"), "op %d (%s %s): gives metadata although there is no valid chain", r.idx, op.Kind, op.Sub)
		return
	}
	var diffs []string
	for _, p := range all {
		if effLen(len(p.ids)) > effLen(minSure) {
			continue
		}
		d := metaDiff(r.meta, r.snap.metas[p.key()].m)
		if d == "" {
			w.probe("metadata answers predicted")
			return
		}
		diffs = append(diffs, p.key()+": "+d)
	}
	w.fail(w.tags(r, "C05"), "op %d (%s %s): metadata belongs to no shortest valid chain: %s", r.idx, op.Kind, op.Sub, strings.Join(diffs, " / "))
}

// effLen: a chain without intermediates has path length 0 just like an anchor alone.
func effLen(n int) int {
	if n < 2 {
		return 2
	}
	return n
}

func (w *World) judgePossible(r *opResult) {
	op := r.op
	if r.valid == r.invalid {
		w.fail(w.tags(r, "C05 C18"), "op %d: local resolution says valid=%v and invalid=%v", r.idx, r.valid, r.invalid)
	}
	if !w.isQuietFor(r) {
		return
	}
	sure, all, unknown := w.candidates(r)
	if !r.valid && len(sure) > 0 {
		w.fail(w.tags(r, "C04"), "op %d (possible %s): said to be impossible although the chain %s is valid", r.idx, op.Sub, sure[0].key())
	}
	if r.valid && len(all) == 0 && !unknown && !w.hasByz() {
		w.fail(w.tags(r, "C01 C05"), "op %d (possible %s): said to be possible although there is no valid chain", r.idx, op.Sub)
	}
}
