package main

import (
	"encoding/json"
	"runtime"
	"strings"
	"sync"
	"time"
)

func cloneP(p plan) plan {
	b, _ := json.Marshal(p)
	var q plan
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	_ = d.Decode(&q)
	return q
}

// minimise makes a failing plan smaller as long as it fails in the same way.
func minimise(bin, prop string, p plan, r *workerLine, cl string, limit time.Duration, tmp string) (plan, *workerLine) {
	end := time.Now().Add(limit)
	if strings.HasPrefix(r.died, "the run does not end") {
		return p, r
	}
	nw := runtime.NumCPU()
	same := func(l *workerLine) bool {
		o := l.outcome(prop)
		if o == "" {
			return false
		}
		if class(o) == cl {
			return true
		}
		for _, f := range l.relevant(prop) {
			if class(f.Msg) == cl {
				return true
			}
		}
		return false
	}
	// try gives the first candidate that still fails
	try := func(cands []func() plan) bool {
		for i := 0; i < len(cands) && time.Now().Before(end); i += nw {
			k := i + nw
			if k > len(cands) {
				k = len(cands)
			}
			type res struct {
				p plan
				l *workerLine
			}
			out := make([]res, k-i)
			var wg sync.WaitGroup
			for j := i; j < k; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					q := cands[j]()
					if q == nil {
						return
					}
					if l, ok := execPlan(bin, q, tmp, 200+j%nw); ok && same(l) {
						out[j-i] = res{q, l}
					}
				}()
			}
			wg.Wait()
			for _, o := range out {
				if o.p != nil {
					p, r = o.p, o.l
					return true
				}
			}
		}
		return false
	}
	list := func(q plan, k string) []any { l, _ := q[k].([]any); return l }
	cut := func(k string, a, b int) func() plan {
		return func() plan {
			q := cloneP(p)
			l := list(q, k)
			if b > len(l) || a >= b {
				return nil
			}
			q[k] = append(append([]any{}, l[:a]...), l[b:]...)
			return q
		}
	}
	// shrink a list: large pieces first
	shrink := func(k string) {
		for size := (len(list(p, k)) + 1) / 2; size >= 1; size /= 2 {
			for time.Now().Before(end) {
				var cs []func() plan
				n := len(list(p, k))
				for b := n; b > 0; b -= size {
					a := b - size
					if a < 0 {
						a = 0
					}
					cs = append(cs, cut(k, a, b))
				}
				if n == 0 || !try(cs) {
					break
				}
			}
		}
	}
	set := func(path []string, v any) func() plan {
		return func() plan {
			q := cloneP(p)
			m := map[string]any(q)
			for _, x := range path[:len(path)-1] {
				n, ok := m[x].(map[string]any)
				if !ok {
					return nil
				}
				m = n
			}
			m[path[len(path)-1]] = v
			return q
		}
	}
	for round := 0; round < 2 && time.Now().Before(end); round++ {
		shrink("ops")
		shrink("faults")
		try([]func() plan{set([]string{"sched"}, map[string]any{"mode": 0, "yield_thr": 0, "cutoff": 0})})
		try([]func() plan{set([]string{"latency_ms"}, 0)})
		for _, k := range []string{"get_err", "set_err", "lose", "damage", "stall", "down"} {
			if c, ok := p["cache"].(map[string]any); ok && c[k] != nil {
				try([]func() plan{set([]string{"cache", k}, 0)})
			}
		}
		shrink("nodes")
		// parts of nodes
		for i := range list(p, "nodes") {
			n, ok := list(p, "nodes")[i].(map[string]any)
			if !ok {
				continue
			}
			var cs []func() plan
			for _, k := range []string{"subs", "marks", "hints"} {
				l, _ := n[k].([]any)
				for j := range l {
					cs = append(cs, func() plan {
						q := cloneP(p)
						m := list(q, "nodes")[i].(map[string]any)
						ll, _ := m[k].([]any)
						if j >= len(ll) {
							return nil
						}
						m[k] = append(append([]any{}, ll[:j]...), ll[j+1:]...)
						return q
					})
				}
			}
			for _, k := range []string{"byz", "skew", "reissue", "alg", "no_list", "no_fetch", "extra", "tm_iss", "tm_own", "resolve", "collect"} {
				if n[k] != nil {
					cs = append(cs, func() plan {
						q := cloneP(p)
						delete(list(q, "nodes")[i].(map[string]any), k)
						if k == "byz" { // what is hostile is not judged as if it were not
							delete(list(q, "nodes")[i].(map[string]any), "hostile")
						}
						return q
					})
				}
			}
			subs, _ := n["subs"].([]any)
			for j := range subs {
				for _, k := range []string{"constr", "policy", "byz", "keys", "extra"} {
					if m, ok := subs[j].(map[string]any); !ok || m[k] == nil {
						continue
					}
					cs = append(cs, func() plan {
						q := cloneP(p)
						m := list(q, "nodes")[i].(map[string]any)
						ll, _ := m["subs"].([]any)
						if j >= len(ll) {
							return nil
						}
						delete(ll[j].(map[string]any), k)
						return q
					})
				}
			}
			for len(cs) > 0 && time.Now().Before(end) && try(cs) {
				// indices may have moved: give up on this node after a while
				if len(cs) > 1 {
					cs = cs[1:]
				} else {
					cs = nil
				}
			}
		}
		// fewer scheduling decisions
		if s, ok := p["sched"].(map[string]any); ok {
			mode, _ := s["mode"].(json.Number)
			if mode.String() != "0" {
				lo, hi := int64(0), int64(r.Res.Choices)
				for i := 0; i < 12 && lo < hi && time.Now().Before(end); i++ {
					mid := (lo + hi) / 2
					if try([]func() plan{set([]string{"sched", "cutoff"}, mid)}) {
						hi = mid
					} else {
						lo = mid + 1
					}
				}
			}
		}
	}
	return p, r
}
