package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"
)

// Remote resolution and remote collection.

// resolveEndpoint answers a resolve request the way the node is set to; positive
// answers are recognisable by what they say.
func (w *World) resolveEndpoint(n *node, p url.Values, t time.Duration) *reply {
	if n.Resolve == "" {
		return jsonError(404, "not_found")
	}
	sub := p.Get("sub")
	iat := t.Truncate(time.Second)
	tas := p["trust_anchor"]
	ta := n.ID
	if len(tas) > 0 && !contains(tas, ta) {
		ta = tas[0]
	}
	marker := J{"organization_name": "answer of " + n.ID, "issuer": sub, "authorization_endpoint": trimSlash(sub) + "/authz", "token_endpoint": trimSlash(sub) + "/token"}
	c := J{"iss": n.ID, "sub": sub, "iat": unixOf(iat), "exp": unixOf(iat + sec(600)), "trust_anchor": ta,
		"metadata": J{"openid_provider": marker}, "x_extra": "kept"}
	key, typ := n.key(), "resolve-response+jwt"
	mode := n.Resolve
	if i := strings.Index(mode, ":"); i >= 0 {
		status := 400
		if mode[:i] == "neg404" {
			status = 404
		}
		return jsonError(status, mode[i+1:])
	}
	switch mode {
	case "good":
	case "chain": // the answer holds the trust chain it is based on
		ps, _ := w.paths(sub, []AnchorQ{{ID: ta}}, nil)
		if len(ps) == 0 {
			return jsonError(400, "invalid_trust_chain")
		}
		sort.SliceStable(ps, func(i, j int) bool { return len(ps[i].ids) < len(ps[j].ids) })
		l := []string{}
		for _, j := range w.modelChain(ps[0], t) {
			l = append(l, w.record2(j.raw))
		}
		if len(l) == 0 {
			return jsonError(400, "invalid_trust_chain")
		}
		c["trust_chain"] = l
	case "err500":
		return &reply{status: 500, ctype: "text/html", body: "<html>oops</html>"}
	case "html":
		return &reply{status: 200, ctype: "text/html", body: "<html>hello</html>"}
	case "json":
		return &reply{status: 200, ctype: "application/json", body: string(mustJSON(c))}
	case "empty":
		return &reply{status: 200, ctype: "application/resolve-response+jwt"}
	case "errjson200":
		return &reply{status: 200, ctype: "application/json", body: `{"error":"invalid_trust_chain"}`}
	case "typ":
		typ = "entity-statement+jwt"
	case "wrongsub":
		c["sub"] = w.other(sub)
	case "expired":
		c["iat"], c["exp"] = unixOf(iat-sec(1000)), unixOf(iat-sec(5))
	case "future":
		c["iat"], c["exp"] = unixOf(iat+sec(300)), unixOf(iat+sec(900))
	case "nometa":
		delete(c, "metadata")
	case "nullmeta":
		c["metadata"] = nil
	}
	return &reply{status: 200, ctype: "application/resolve-response+jwt", body: signJWT(key, typ, c)}
}

// record2 remembers a statement handed on by somebody else.
func (w *World) record2(raw string) string {
	if j := decodeJWT(raw); j != nil && w.ledger[raw] == nil {
		kind := "sub"
		if j.str("iss") == j.str("sub") {
			kind = "ec"
		}
		n := w.nodes[j.str("iss")]
		if n != nil {
			w.record(kind, n, j.str("sub"), raw, ofUnix(j.num("iat")), ofUnix(j.num("exp")))
		}
	}
	return raw
}

const (
	ansUnknown = iota
	ansPositive
	ansOnlyChain
	ansInvalid
	ansNone
)

// resolveAnswer classifies what a resolve endpoint gave.
func resolveAnswer(q *request, sub string) (int, map[string]any) {
	if q.err || q.done == 0 {
		return ansNone, nil
	}
	if q.hostile || q.fault == "garb" || q.fault == "swap" || q.fault == "stale" || q.fault == "mitm" {
		return ansUnknown, nil
	}
	if q.status != 200 {
		if !strings.HasPrefix(q.body, "{") {
			return ansNone, nil
		}
		var m map[string]any
		if json.Unmarshal([]byte(q.body), &m) != nil {
			return ansNone, nil
		}
		switch m["error"] {
		case "invalid_trust_chain":
			return ansInvalid, nil
		case "invalid_metadata":
			return ansOnlyChain, nil
		}
		return ansNone, nil
	}
	j := decodeJWT(q.body)
	if j == nil || j.typ() != "resolve-response+jwt" || j.str("sub") != sub {
		return ansNone, nil
	}
	switch timeState(j.claims, q.done-tick, q.done+tick) {
	case no:
		return ansNone, nil
	case may:
		return ansUnknown, nil
	}
	m, ok := j.claims["metadata"].(map[string]any)
	if !ok {
		return ansNone, nil
	}
	return ansPositive, m
}

type asked struct {
	host string
	last *request
}

// askedEndpoints are the endpoints an operation asked, in order, with the last answer.
func (w *World) askedEndpoints(r *opResult, what string) (out []asked) {
	for _, q := range w.reqs[r.seq0:r.seq1] {
		if q.tag != r.tag || q.what != what {
			continue
		}
		if n := len(out); n > 0 && out[n-1].host == q.host {
			out[n-1].last = q
		} else {
			out = append(out, asked{q.host, q})
		}
	}
	return
}

// mustAsk tells whether that anchor's endpoint has to be asked.
func (w *World) mustAsk(r *opResult, id string, has func(n *node) bool) bool {
	n := w.node(id)
	return n != nil && has(n) && !n.NoMeta && w.ecState(id) == must && !w.faultedHosts(r.t0, r.t1)[id]
}

// queryIs compares the parameters of a request with what they should be.
func (w *World) queryIs(r *opResult, q *request, prop string, want map[string][]string) {
	u, err := url.Parse(q.url)
	if err != nil {
		return
	}
	got := u.Query()
	for _, k := range sortedKeys(want) {
		a, b := append([]string{}, want[k]...), []string{}
		for _, x := range got[k] {
			if x != "" {
				b = append(b, x)
			}
		}
		sort.Strings(a)
		sort.Strings(b)
		if !reflect.DeepEqual(a, b) {
			w.fail(prop, "op %d: the request to %s has %s=%v, should be %v", r.idx, q.base, k, b, a)
		}
	}
}

func nonEmpty(s string) []string {
	if s == "" {
		return nil
	}
	return []string{s}
}

// judgeRemoteResolve checks resolutions through resolve endpoints.
func (w *World) judgeRemoteResolve(r *opResult) {
	op := r.op
	w.probe("remote resolutions")
	as := w.askedEndpoints(r, "resolve")
	for _, a := range as {
		w.queryIs(r, a.last, "C18", map[string][]string{"sub": {op.Sub}, "trust_anchor": anchorIDs(op.Anchors), "entity_type": op.Types})
	}
	if op.A == "remote" {
		if len(as) != 1 {
			w.fail("C18", "op %d: %d endpoints asked instead of one", r.idx, len(as))
			return
		}
		c, m := resolveAnswer(as[0].last, op.Sub)
		w.compareAnswer(r, c, m, true)
		return
	}
	// which answers count
	i := 0
	quiet := w.quiet(r, nil)
	for _, a := range op.Anchors {
		if i < len(as) && as[i].host == a.ID {
			c, m := resolveAnswer(as[i].last, op.Sub)
			i++
			switch {
			case c == ansUnknown:
				w.probe("remote resolutions not predicted")
				return
			case c == ansPositive, op.Kind == "possible" && (c == ansOnlyChain || c == ansInvalid):
				if i < len(as) {
					w.fail("C18", "op %d: another endpoint is asked after %s gave an answer", r.idx, a.ID)
				}
				w.compareAnswer(r, c, m, false)
				return
			}
			continue
		}
		if quiet && w.mustAsk(r, a.ID, func(n *node) bool { return n.Resolve != "" }) {
			w.fail(w.tags(r, "C18"), "op %d: the resolve endpoint of %s is not asked", r.idx, a.ID)
			return
		}
	}
	if i < len(as) {
		w.fail("C18", "op %d: endpoints asked in a wrong order: %v", r.idx, as)
		return
	}
	// nobody gave an answer: the local resolution counts
	w.probe("remote resolutions that fall back")
	saved := w.prop
	n0 := len(w.fails)
	if op.Kind == "possible" {
		w.judgePossible(r)
	} else {
		w.judgeMeta(r)
	}
	w.prop = saved
	for i := n0; i < len(w.fails); i++ {
		w.fails[i].Props = append(w.fails[i].Props, "C18")
	}
}

func (w *World) compareAnswer(r *opResult, c int, m map[string]any, simple bool) {
	op := r.op
	w.probe(fmt.Sprintf("remote answers of kind %d", c))
	if op.Kind == "possible" {
		wantV, wantI := c == ansPositive || c == ansOnlyChain, c == ansInvalid
		if c == ansUnknown {
			return
		}
		if r.valid != wantV || r.invalid != wantI {
			w.fail("C18", "op %d: the answer of the endpoint means valid=%v invalid=%v, but valid=%v invalid=%v is reported", r.idx, wantV, wantI, r.valid, r.invalid)
		}
		return
	}
	switch c {
	case ansUnknown:
	case ansPositive:
		if r.err != "" {
			w.fail("C18", "op %d: fails with %q although the endpoint gave a positive answer", r.idx, r.err)
			return
		}
		if d := metaDiff(r.meta, normalMeta(m)); d != "" {
			w.fail("C18", "op %d: not the metadata the endpoint gave: %s", r.idx, d)
		}
	default:
		if simple && r.err == "" {
			w.fail("C18", "op %d: gives metadata although the endpoint gave no positive answer", r.idx)
		}
	}
}

// judgeRemoteCollect checks collections through collection endpoints.
func (w *World) judgeRemoteCollect(r *opResult) {
	op := r.op
	w.probe("remote collections")
	as := w.askedEndpoints(r, "collect")
	req := collectRequest(op)
	for _, a := range as {
		want := map[string][]string{"trust_anchor": {req.TrustAnchor}, "entity_type": req.EntityTypes, "trust_mark_type": req.TrustMarkTypes,
			"name_query": nonEmpty(req.NameQuery), "claims": req.Claims, "from_entity_id": nonEmpty(req.FromEntityID)}
		if req.Limit != 0 {
			want["limit"] = []string{fmt.Sprint(req.Limit)}
		}
		w.queryIs(r, a.last, "C19", want)
	}
	if op.A == "remote" {
		if len(as) != 1 {
			w.fail("C19", "op %d: %d endpoints asked instead of one", r.idx, len(as))
			return
		}
		ids, ents, c := collectAnswer(as[0].last)
		w.compareCollection(r, ids, ents, c)
		return
	}
	quiet := w.quiet(r, nil)
	i := 0
	for _, id := range dedupe(anchorIDs(op.Anchors)) {
		if i < len(as) && as[i].host == id {
			ids, ents, c := collectAnswer(as[i].last)
			i++
			if c == may {
				w.probe("remote collections not predicted")
				return
			}
			if c == must {
				if i < len(as) {
					w.fail("C19", "op %d: another endpoint is asked after %s gave an answer", r.idx, id)
				}
				w.compareCollection(r, ids, ents, c)
				return
			}
			continue
		}
		if quiet && w.mustAsk(r, id, func(n *node) bool { return n.Collect != "" }) {
			w.fail(w.tags(r, "C19"), "op %d: the collection endpoint of %s is not asked", r.idx, id)
			return
		}
	}
	if i < len(as) {
		w.fail("C19", "op %d: endpoints asked in a wrong order: %v", r.idx, as)
		return
	}
	w.probe("remote collections that fall back")
	n0 := len(w.fails)
	o := *op
	o.A = ""
	cr := *r
	cr.op = &o
	w.judgeCollect(&cr)
	for i := n0; i < len(w.fails); i++ {
		w.fails[i].Props = append(w.fails[i].Props, "C19")
	}
}

func (w *World) compareCollection(r *opResult, ids []string, ents []any, c certainty) {
	if c == may {
		return
	}
	w.probe(fmt.Sprintf("collection answers of kind %d", c))
	if c == no {
		if len(r.list) > 0 {
			w.fail("C19", "op %d: %d entities although the endpoint gave no answer", r.idx, len(r.list))
		}
		return
	}
	got := []string{}
	for _, e := range r.list {
		got = append(got, e.id)
	}
	want := append([]string{}, ids...)
	sort.Strings(want)
	if !reflect.DeepEqual(got, want) {
		w.fail("C19", "op %d: entities %v, but the endpoint answered %v", r.idx, got, want)
		return
	}
	for _, e := range r.list {
		for i, id := range ids {
			if id == e.id {
				if a, b := normal(rejson(e.json)), normal(ents[i]); !reflect.DeepEqual(a, b) {
					w.fail("C19", "op %d: entity %s is %s, but the endpoint answered %s", r.idx, id, mustJSON(e.json), mustJSON(ents[i]))
				}
			}
		}
	}
}
