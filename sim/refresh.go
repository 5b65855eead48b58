package main

import (
	"time"
)

// Statements from the cache and their background refresh.

func (w *World) stmtBase(op *Op) (base, arg, iss, sub string) {
	if op.Kind == "getec" {
		return trimSlash(op.Sub) + ecSuffix, "", op.Sub, op.Sub
	}
	n := w.nodes[op.A]
	return trimSlash(n.ID) + "/fetch", op.Sub, op.A, op.Sub
}

func trimSlash(s string) string {
	for len(s) > 0 && s[len(s)-1] == '/' {
		s = s[:len(s)-1]
	}
	return s
}

// usableReply classifies what a request delivered: is it a statement of iss about sub
// that is valid when it arrives?
func usableReply(q *request, iss, sub string) (certainty, *rawJWT) {
	if q.err || q.status != 200 || q.done == 0 {
		return no, nil
	}
	if q.fault == "garb" || q.hostile {
		return may, nil
	}
	j := decodeJWT(q.body)
	if j == nil {
		if q.fault == "" {
			return may, nil // something hostile; whether it can be read is not modelled
		}
		return no, nil
	}
	if j.typ() != "entity-statement+jwt" || j.str("iss") != iss || j.str("sub") != sub {
		return no, nil
	}
	if j.claims["exp"] == nil || j.claims["iat"] == nil {
		return may, nil
	}
	iat, exp := ofUnix(j.num("iat")), ofUnix(j.num("exp"))
	switch {
	case iat > q.done+time.Second || exp < q.done-time.Second:
		return no, nil
	case iat > q.done || exp < q.done+time.Second:
		return may, nil
	}
	return must, j
}

// cachedAt is the statement in the cache at t, as far as known; sure is false if that
// cannot be told.
func (w *World) cachedAt(base, arg, iss, sub string, t time.Duration) (cand []*rawJWT, sure bool) {
	var last *rawJWT
	var at time.Duration
	for _, q := range w.reqs {
		if q.base != base || q.arg != arg || q.done == 0 || q.done > t {
			continue
		}
		c, j := usableReply(q, iss, sub)
		if c == must && !w.askedFor(q, sub) {
			c = may // another operation may have asked for it by another name
		}
		switch c {
		case may:
			return nil, false
		case must:
			if q.done == t {
				cand = append(cand, j) // stored now or in a moment
				continue
			}
			if last == nil || q.done > at {
				last, at = j, q.done
			} else if q.done == at && j.raw != last.raw {
				return nil, false
			}
		}
	}
	if last != nil {
		cand = append(cand, last)
	}
	return cand, true
}

// askedFor tells whether the request was surely made for the entity with exactly that
// identifier. One that differs in a slash at its end has the same URLs, and what is
// received there is not what was asked for.
func (w *World) askedFor(q *request, sub string) bool {
	for _, r := range w.results {
		if r.tag == q.tag && r.op.Sub == sub {
			return true
		}
	}
	for _, o := range w.reqs {
		if o.tag == q.tag && o.seq < q.seq && o.status >= 300 && o.status < 400 {
			return false // it may have been sent there
		}
	}
	return !w.twoForms(sub)
}

func (w *World) twoForms(id string) bool {
	same := func(x string) bool { return x != id && trimSlash(x) == trimSlash(id) }
	for _, op := range w.plan.Ops {
		if same(op.Sub) || same(op.A) || same(op.B) {
			return true
		}
		for _, a := range op.Anchors {
			if same(a.ID) {
				return true
			}
		}
	}
	for _, n := range w.plan.Nodes {
		if same(n.ID) {
			return true
		}
		for _, h := range n.Hints {
			if same(h) {
				return true
			}
		}
	}
	return false
}

func (w *World) cacheIsSound() bool {
	return len(w.restarts) == 0 && len(w.cacheFaults) == 0 && w.plan.Cache.Kind != "none"
}

// judgeStatement checks a single statement an operation was given.
func (w *World) judgeStatement(r *opResult) {
	base, arg, iss, sub := w.stmtBase(r.op)
	if r.op.Kind == "fetch" && iss == sub {
		return // a statement an entity issues about itself is its configuration
	}
	w.probe("statements")
	if r.err == "" {
		// it is either an answer to a request made now or a cached one that is not expired
		ok := false
		var poisoned bool
		for _, q := range w.reqs {
			if q.base == base && q.arg == arg && q.body == r.raw && !q.err && q.done <= r.t1 && q.done != 0 {
				j := decodeJWT(r.raw)
				if q.done >= r.t0 || (j != nil && (ofUnix(j.num("exp")) > r.t0-time.Millisecond || j.claims["exp"] == nil)) {
					ok = true
				}
			}
			if q.fault == "garb" || q.fault == "swap" {
				poisoned = true
			}
		}
		if !ok && !poisoned {
			w.fail("C10 C02", "op %d (%s %s): the statement is neither an answer to a request of this call nor cached and valid", r.idx, r.op.Kind, r.op.Sub)
		}
	}
	if r.err != "" {
		var last *request
		for _, q := range w.reqs {
			if q.base == base && q.arg == arg && q.tag == r.tag {
				last = q
			}
		}
		if last != nil {
			if c, _ := usableReply(last, iss, sub); c == must {
				w.fail("C10 C07", "op %d (%s %s): fails with %q although a usable statement was delivered", r.idx, r.op.Kind, r.op.Sub, r.err)
			}
		}
	}
	if !w.cacheIsSound() || r.stalled() > 0 {
		return
	}
	cand, sure := w.cachedAt(base, arg, iss, sub, r.t0)
	if !sure || len(cand) == 0 {
		return
	}
	var live []*rawJWT
	for _, j := range cand {
		exp := ofUnix(j.num("exp"))
		if exp > r.t0+1100*time.Millisecond { // backends count whole seconds
			live = append(live, j)
		}
	}
	// a candidate that arrives just now may not be stored yet
	settled := false
	for _, j := range live {
		if j == cand[len(cand)-1] && w.arrivedBefore(base, arg, iss, sub, j.raw, r.t0) {
			settled = true
		}
	}
	if !settled {
		return
	}
	w.probe("statements expected from the cache")
	if r.err != "" {
		w.fail("C10 C07", "op %d (%s %s): fails with %q although a valid statement is cached", r.idx, r.op.Kind, r.op.Sub, r.err)
		return
	}
	if r.t1 != r.t0 {
		w.fail("C10", "op %d (%s %s): waits %v although a valid statement is cached", r.idx, r.op.Kind, r.op.Sub, r.t1-r.t0)
		return
	}
	for _, j := range live {
		if j.raw == r.raw {
			w.probe("statements served from the cache")
			r.cached = true
			return
		}
	}
	w.fail("C10", "op %d (%s %s): gives another statement than the latest one obtained", r.idx, r.op.Kind, r.op.Sub)
}

// arrivedBefore tells whether that statement was obtained, and usable, before t.
func (w *World) arrivedBefore(base, arg, iss, sub, raw string, t time.Duration) bool {
	for _, q := range w.reqs {
		if q.base == base && q.arg == arg && q.body == raw && q.done != 0 && q.done < t {
			if c, _ := usableReply(q, iss, sub); c == must {
				return true
			}
		}
	}
	return false
}

// refreshWindow tells whether a statement is to be refreshed in the background when
// it is used at t.
func (w *World) refreshWindow(j *rawJWT, t time.Duration) certainty {
	grace, factor := time.Hour, 0.5
	if g, ok := w.plan.Params["grace"]; ok {
		grace = sec(g)
	}
	if f, ok := w.plan.Params["factor"]; ok {
		factor = float64(f) / 100
	}
	iat, exp := ofUnix(j.num("iat")), ofUnix(j.num("exp"))
	eps := 2 * time.Millisecond
	in := func(t time.Duration) bool {
		return exp-t <= grace && float64(t-iat)/float64(exp-iat) >= factor
	}
	a, b, c := in(t-eps), in(t), in(t+eps)
	if a != b || b != c {
		return may
	}
	if b {
		return must
	}
	return no
}

// checkRefreshes looks at the background requests of all uses of cached statements.
func (w *World) checkRefreshes() {
	if !w.cacheIsSound() {
		return
	}
	for _, r := range w.results {
		if !r.cached {
			continue
		}
		base, arg, _, _ := w.stmtBase(r.op)
		j := decodeJWT(r.raw)
		n, busy := 0, false
		for _, q := range w.reqs {
			if q.base != base || q.arg != arg {
				continue
			}
			if q.tag == r.tag {
				n++
				if q.at != r.t0 && n == 1 {
					w.fail("C10", "op %d (%s %s): the refresh starts at %v only", r.idx, r.op.Kind, r.op.Sub, q.at)
				}
			} else if q.at <= r.t0 && (q.done == 0 || q.done >= r.t0) {
				busy = true
			}
		}
		switch w.refreshWindow(j, r.t0) {
		case must:
			w.probe("refreshes due")
			if n == 0 && !busy {
				w.fail("C10", "op %d (%s %s): statement with iat %v exp %v is used at %v but no refresh is requested", r.idx, r.op.Kind, r.op.Sub, ofUnix(j.num("iat")), ofUnix(j.num("exp")), r.t0)
			}
		case no:
			w.probe("refreshes not due")
			if n > 0 {
				w.fail("C10", "op %d (%s %s): statement with iat %v exp %v is refreshed at %v, which is outside of the window", r.idx, r.op.Kind, r.op.Sub, ofUnix(j.num("iat")), ofUnix(j.num("exp")), r.t0)
			}
		}
	}
}
