package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/apimodel"
)

// Entity collection: operations and reference.

type collected struct {
	id    string
	types []string
	has   bool // types are reported
	ui    map[string]any
	chain []string
	marks []markOut
	json  map[string]any
}

func collectRequest(op *Op) apimodel.EntityCollectionRequest {
	q := apimodel.EntityCollectionRequest{TrustAnchor: op.Anchors[0].ID, EntityTypes: op.Types, TrustMarkTypes: op.S, NameQuery: op.B, Claims: op.Claims}
	if op.J != nil {
		if s, ok := op.J["from"].(string); ok {
			q.FromEntityID = s
		}
		if f, ok := op.J["limit"].(float64); ok {
			q.Limit = uint64(f)
		}
	}
	return q
}

func anchorTail(as []AnchorQ) (out []string) {
	for _, a := range as[1:] {
		out = append(out, a.ID)
	}
	return
}

func (w *World) execCollect(r *opResult) {
	op := r.op
	req := collectRequest(op)
	var c oidfed.EntityCollector
	switch {
	case op.A == "op":
		c = &oidfed.SimpleOPCollector{}
	case op.A == "verified":
		c = oidfed.VerifiedChainsEntityCollector{}
	case op.A == "remote":
		c = oidfed.SimpleRemoteEntityCollector{EntityCollectionEndpoint: w.nodes[op.Anchors[0].ID].url("collect")}
	case op.A == "smart":
		c = oidfed.SmartRemoteEntityCollector{TrustAnchors: anchorIDs(op.Anchors)}
		if l, ok := strList(op.J["config"]); ok { // one collector asked for several anchors
			raceMu.Lock()
			if w.smartAnchors == nil {
				w.smartAnchors = map[int][]string{}
			}
			if w.smartAnchors[op.Slot] == nil {
				w.smartAnchors[op.Slot] = l
			}
			c = oidfed.SmartRemoteEntityCollector{TrustAnchors: w.smartAnchors[op.Slot]}
			raceMu.Unlock()
		} else if op.N&1 == 1 {
			c = oidfed.SmartRemoteEntityCollector{TrustAnchors: anchorTail(op.Anchors)}
		}
	case strings.HasPrefix(op.A, "filter:"):
		c = oidfed.FilterableVerifiedChainsEntityCollector{Filters: []oidfed.EntityCollectionFilter{w.libFilter(op)}}
	default:
		c = &oidfed.SimpleEntityCollector{}
	}
	if op.Slot != 0 && (op.A == "" || op.A == "op" || op.A == "verified") { // a collector that others use as well
		raceMu.Lock()
		k := fmt.Sprint(op.Slot, op.A)
		if w.collectors == nil {
			w.collectors = map[string]oidfed.EntityCollector{}
		}
		if w.collectors[k] == nil {
			w.collectors[k] = c
		}
		c = w.collectors[k]
		raceMu.Unlock()
	}
	wait := func() {}
	if op.A != "smart" && op.A != "remote" { // which of the answers counts would not be known
		wait = w.inParallel(r, func() { c.CollectEntities(req) })
	}
	es := c.CollectEntities(req)
	wait()
	if es == nil {
		r.raw = "nil"
	}
	for _, e := range es {
		if e == nil {
			r.list = append(r.list, collected{})
			continue
		}
		x := collected{id: e.EntityID, types: append([]string{}, e.EntityTypes...), has: e.EntityTypes != nil, ui: toMapAny(e.UIInfos), json: toMap(e)}
		for _, m := range e.TrustChain {
			if m == nil {
				x.chain = append(x.chain, "")
				continue
			}
			x.chain = append(x.chain, string(m.RawJWT))
		}
		for _, m := range e.TrustMarks {
			x.marks = append(x.marks, markOut{m.TrustMarkType, m.TrustMarkJWT})
		}
		r.list = append(r.list, x)
	}
	sort.SliceStable(r.list, func(i, j int) bool { return r.list[i].id < r.list[j].id })
}

func toMapAny(v any) map[string]any {
	b, err := json.Marshal(v)
	if err != nil {
		return map[string]any{"!marshal": err.Error()}
	}
	var m map[string]any
	_ = json.Unmarshal(b, &m)
	return m
}

func (w *World) libFilter(op *Op) oidfed.EntityCollectionFilter {
	ta := []string{op.Anchors[0].ID}
	want := op.filterArgs()
	switch op.A {
	case "filter:grants":
		return oidfed.EntityCollectionFilterOPSupportedGrantTypesIncludes(ta, want...)
	case "filter:scopes":
		return oidfed.EntityCollectionFilterOPSupportedScopesIncludes(ta, want...)
	case "filter:explicit":
		return oidfed.EntityCollectionFilterOPSupportsExplicitRegistration(ta)
	case "filter:automatic":
		return oidfed.EntityCollectionFilterOPSupportsAutomaticRegistration(ta)
	}
	return oidfed.EntityCollectionFilterOPs()
}

func (op *Op) filterArgs() []string {
	l, _ := strList(op.J["args"])
	return l
}

// ---- reference ----

// reachable gives the entities a collection from ta reaches and how surely; faulted
// hosts make what depends on them uncertain.
func (w *World) reachable(ta string, f map[string]bool) map[string]certainty {
	state := func(id string) certainty {
		c := w.ecState(id)
		if f[id] || f[""] {
			c = both(c, may)
		}
		return c
	}
	out := map[string]certainty{}
	expanded := map[string]certainty{}
	var expand func(id string, c certainty)
	expand = func(id string, c certainty) {
		if old, ok := expanded[id]; ok && old >= c {
			return
		}
		expanded[id] = c
		n := w.node(id)
		if n == nil || (!n.Auth && n.Byz == "") || n.NoList || n.NoMeta {
			return
		}
		for _, s := range n.listing() {
			sc := both(c, state(s))
			sn := w.node(s)
			if sc == no || sn == nil {
				continue
			}
			if sn.NoMeta {
				sc = both(sc, may)
			}
			if sc > out[s] {
				out[s] = sc
			}
			expand(s, sc)
		}
	}
	if c := state(ta); c != no {
		expand(ta, c)
	}
	return out
}

// quietCollect tells whether a collection can be predicted: listings may be up to an
// hour old.
func (w *World) quietCollect(r *opResult, inv map[string]bool) bool {
	for _, c := range w.changes {
		if c >= r.t0-time.Hour-2*time.Second && c <= r.t1+time.Second {
			return false
		}
	}
	for _, c := range w.lies {
		if c >= r.t0-time.Hour-time.Minute && c <= r.t1 {
			return false
		}
	}
	return w.quiet(r, inv)
}

// fuzzy: all characters in this order, whatever the case.
func fuzzy(q, name string) bool {
	q, name = strings.ToLower(q), strings.ToLower(name)
	i := 0
	for j := 0; j < len(name) && i < len(q); j++ {
		if name[j] == q[i] {
			i++
		}
	}
	return i == len(q)
}

var uiTypes = []string{"openid_provider", "openid_relying_party", "oauth_authorization_server", "oauth_client", "oauth_resource", "federation_entity"}

func displayName(t string, m J) string {
	if s, _ := m["display_name"].(string); s != "" {
		return s
	}
	k := map[string]string{"openid_provider": "organization_name", "oauth_authorization_server": "organization_name", "federation_entity": "organization_name",
		"openid_relying_party": "client_name", "oauth_client": "client_name", "oauth_resource": "resource_name"}[t]
	s, _ := m[k].(string)
	return s
}

// matches tells whether an entity satisfies the restrictions of a collection.
func (w *World) matches(r *opResult, id string) certainty {
	op := r.op
	n := w.node(id)
	if n == nil {
		return may
	}
	if n.Byz != "" || n.NoMeta {
		return may
	}
	res := must
	meta := n.metadata()
	types := op.Types
	if op.A == "op" {
		types = []string{"openid_provider"}
	}
	if len(types) > 0 && len(filterTypes(n.types(), types)) == 0 {
		return no
	}
	if op.B != "" {
		ok := false
		for t, m := range meta {
			if contains(uiTypes, t) && fuzzy(op.B, displayName(t, m)) {
				ok = true
			}
		}
		if !ok {
			return no
		}
	}
	ta := op.Anchors[0].ID
	if len(op.S) > 0 {
		w.noRecord = true
		ec := decodeJWT(w.entityConfiguration(n, r.t0))
		w.noRecord = false
		if ec == nil {
			return may
		}
		tan := w.node(ta)
		if tan == nil {
			return no
		}
		for _, typ := range op.S {
			c := no
			for _, m := range shownMarks(ec.claims) {
				j := decodeJWT(m.jwt)
				if m.typ != typ || j == nil || j.str("sub") != id {
					continue
				}
				if k := w.markState(r, m.jwt, m.typ, ta, nil); k > c {
					c = k
				}
			}
			if tan.Byz != "" || w.ecState(ta) != must || w.faultedHosts(r.t0, r.t1)[ta] {
				if c != no || tan.Hostile["ec"] != 0 { // whom a hostile anchor allows is not known
					c = may
				}
			}
			res = both(res, c)
			if res == no {
				return no
			}
		}
	}
	if op.A == "verified" || strings.HasPrefix(op.A, "filter:") {
		sure, all := w.chainsTo(r, id, ta, nil)
		switch {
		case len(all) == 0:
			return no
		case len(sure) == 0:
			res = both(res, may)
		}
		if strings.HasPrefix(op.A, "filter:") {
			res = both(res, w.opFilter(op, sure, all))
		}
	}
	return res
}

// opFilter evaluates the filters on resolved metadata.
func (w *World) opFilter(op *Op, sure, all []mpath) certainty {
	min := 1 << 30
	for _, p := range sure {
		if l := effLen(len(p.ids)); l < min {
			min = l
		}
	}
	sawYes, sawNo := false, false
	for _, p := range all {
		if len(p.ids) == 0 {
			return may
		}
		if effLen(len(p.ids)) > min {
			continue
		}
		c := w.modelChain(p, now())
		if c == nil {
			return may
		}
		m, st := refMetadata(c, nil)
		if st != polOK {
			return may
		}
		o, _ := m["openid_provider"].(map[string]any)
		if o == nil && m["openid_provider"] != nil {
			o, _ = m["openid_provider"].(J)
		}
		sub := func(claim string, want []string) bool {
			if m["openid_provider"] == nil {
				return false
			}
			have := map[string]bool{}
			if s, ok := o[claim].(string); ok {
				for _, x := range strings.Split(strings.TrimPrefix(s, "set:"), "|") {
					have[x] = true
				}
			}
			for _, x := range want {
				if !have[x] {
					return false
				}
			}
			return true
		}
		var ok bool
		switch op.A {
		case "filter:grants":
			ok = sub("grant_types_supported", op.filterArgs())
		case "filter:scopes":
			ok = sub("scopes_supported", op.filterArgs())
		case "filter:explicit":
			ok = sub("client_registration_types_supported", []string{"explicit"})
		case "filter:automatic":
			ok = sub("client_registration_types_supported", []string{"automatic"})
		default: // own metadata
			n := w.nodes[p.ids[0]]
			ok = contains(n.types(), "openid_provider")
		}
		if ok {
			sawYes = true
		} else {
			sawNo = true
		}
	}
	switch {
	case sawYes && !sawNo:
		return must
	case sawNo && !sawYes:
		return no
	}
	return may
}

func (w *World) judgeCollect(r *opResult) {
	op := r.op
	seen := map[string]int{}
	for _, e := range r.list {
		seen[e.id]++
		if e.id == "" {
			w.fail("C11 C13", "op %d: collection returns an entity without identifier", r.idx)
			return
		}
	}
	for id, n := range seen {
		if n > 1 {
			w.fail("C11 C13", "op %d (collect %s): %s is returned %d times", r.idx, op.Anchors[0].ID, id, n)
		}
	}
	for _, e := range r.list {
		w.checkCollected(r, e)
	}
	w.probe("collections")
	f := w.faultedHosts(r.t0, r.t1)
	reach := w.reachable(op.Anchors[0].ID, f)
	if !w.quietCollect(r, nil) {
		w.probe("collections not predicted")
		return
	}
	w.probe("collections predicted")
	restricted := len(op.Types) > 0 || op.B != "" || len(op.S) > 0 || op.A != ""
	base := "C11"
	if restricted {
		base = "C12"
	}
	for _, id := range sortedKeys(reach) {
		c := reach[id]
		if c == must {
			w.probe("collected entities expected")
		}
		m := w.matches(r, id)
		if both(c, m) == must && seen[id] == 0 {
			w.fail(w.tags(r, base), "op %d (collect %s %s types %v name %q marks %v): %s is missing (%d entities)", r.idx, op.Anchors[0].ID, op.A, op.Types, op.B, op.S, id, len(r.list))
		}
		if m == no && seen[id] > 0 {
			w.fail(w.tags(r, "C12"), "op %d (collect %s %s types %v name %q marks %v %v): %s does not satisfy the restriction", r.idx, op.Anchors[0].ID, op.A, op.Types, op.B, op.S, op.filterArgs(), id)
		}
	}
	for id := range seen {
		if _, ok := reach[id]; !ok && !w.hasByz() {
			w.fail(w.tags(r, "C11"), "op %d (collect %s): %s is returned but not reachable", r.idx, op.Anchors[0].ID, id)
		}
	}
}

// checkCollected compares what is reported about an entity with the entity itself.
func (w *World) checkCollected(r *opResult, e collected) {
	op := r.op
	n := w.nodes[e.id]
	if n == nil || n.Byz != "" || n.NoMeta {
		return
	}
	asked := func(c string, def bool) bool {
		if op.Claims == nil {
			return def
		}
		return contains(op.Claims, c)
	}
	bad := func(props, f string, a ...any) {
		w.fail(props, "op %d (collect %s claims %v): "+f, append([]any{r.idx, op.Anchors[0].ID, op.Claims}, a...)...)
	}
	if !asked("trust_chain", false) && len(e.chain) > 0 {
		bad("C12", "%s: a trust chain is reported without being asked for", e.id)
	}
	if !asked("trust_marks", false) && len(e.marks) > 0 {
		bad("C12", "%s: trust marks are reported without being asked for", e.id)
	}
	if !asked("entity_types", true) && e.has {
		bad("C12", "%s: entity types are reported without being asked for", e.id)
	}
	if len(e.chain) > 0 {
		cr := *r
		o := *op
		o.Sub, o.Anchors, o.Types = e.id, op.Anchors[:1], nil
		cr.op = &o
		cr.snap = &snapshot{}
		w.checkChain(&cr, e.chain, "chain of the collected entity")
	}
	quiet := w.quiet(r, nil)
	if !quiet {
		// marks still have to be the entity's own and alive
		for _, m := range e.marks {
			if j := decodeJWT(m.jwt); j == nil || j.str("sub") != e.id {
				bad("C15", "%s: a trust mark of somebody else is reported", e.id)
			}
		}
		return
	}
	w.probe("collected entities compared")
	if asked("entity_types", true) {
		got := append([]string{}, e.types...)
		sort.Strings(got)
		if !reflect.DeepEqual(got, n.types()) {
			bad("C12", "%s: entity types are %v, should be %v", e.id, got, n.types())
		}
	}
	// user interface information
	want := J{}
	for t, m := range n.metadata() {
		if !contains(uiTypes, t) {
			continue
		}
		u := J{}
		for _, c := range []string{"description", "logo_uri", "policy_uri", "information_uri", "keywords"} {
			if v := m[c]; v != nil && asked(c, true) {
				u[c] = v
			}
		}
		if d := displayName(t, m); d != "" && asked("display_name", true) {
			u["display_name"] = d
		}
		if len(u) > 0 {
			want[t] = u
		}
	}
	got := J{}
	for t, v := range e.ui {
		if contains(uiTypes, t) {
			got[t] = v
		}
	}
	gj, wj := normal(rejson(got)), normal(rejson(want))
	if !reflect.DeepEqual(gj, wj) {
		bad("C12", "%s: information is %s, should be %s", e.id, mustJSON(got), mustJSON(want))
	}
	ta := op.Anchors[0].ID
	if asked("trust_chain", false) && len(e.chain) == 0 {
		if sure, _ := w.chainsTo(r, e.id, ta, nil); len(sure) > 0 {
			bad(w.tags(r, "C12"), "%s: no trust chain is reported although %s is valid", e.id, sure[0].key())
		}
	}
	if asked("trust_marks", false) {
		w.noRecord = true
		ec := decodeJWT(w.entityConfiguration(n, r.t0))
		w.noRecord = false
		f := w.faultedHosts(r.t0, r.t1)
		tan := w.node(ta)
		if ec == nil || tan == nil || tan.Byz != "" || w.ecState(ta) != must || f[ta] || f[""] {
			return
		}
		w.checkMarks(r, "collection of "+e.id, e.id, shownMarks(ec.claims), e.marks, ta, nil, true)
	}
}

// ---- collection endpoint ----

// collectEndpoint answers with what the plan says; every answer is recognisable.
func (w *World) collectEndpoint(n *node, q *request, p url.Values, t time.Duration) *reply {
	if n.Collect == "" {
		return jsonError(404, "not_found")
	}
	js := func(v any) *reply {
		return &reply{status: 200, ctype: "application/json", body: string(mustJSON(v))}
	}
	switch n.Collect {
	case "good":
		l := []any{}
		for i := 0; i < 3; i++ {
			l = append(l, J{"entity_id": fmt.Sprintf("%s/collected/%d", n.ID, i), "entity_types": []string{"openid_provider"}, "x_seq": i,
				"ui_infos": J{"openid_provider": J{"display_name": fmt.Sprint("Nr ", i), "x_more": "y"}}})
		}
		return js(J{"federation_entities": l, "last_updated": unixOf(t.Truncate(time.Second))})
	case "empty":
		return js(J{"federation_entities": []any{}})
	case "nulls":
		return js(J{"federation_entities": []any{nil, J{"entity_id": n.ID + "/collected/0"}, nil}})
	case "err400":
		return jsonError(400, "unsupported_parameter")
	case "err404":
		return jsonError(404, "not_found")
	case "err500":
		return &reply{status: 500, ctype: "text/html", body: "<html>oops</html>"}
	case "err500json":
		return &reply{status: 500, ctype: "application/json", body: `{"federation_entities":[]}`}
	case "html":
		return &reply{status: 200, ctype: "text/html", body: "<html>hello</html>"}
	case "badjson":
		return &reply{status: 200, ctype: "application/json", body: `{"federation_entities":[{"entity_id":`}
	case "wrong":
		return &reply{status: 200, ctype: "application/json", body: `{"federation_entities":[{"entity_id":17}]}`}
	case "list":
		return &reply{status: 200, ctype: "application/json", body: `["https://a.example.org"]`}
	case "void":
		return &reply{status: 200, ctype: "application/json", body: `{}`}
	case "null":
		return &reply{status: 200, ctype: "application/json", body: `{"federation_entities":null}`}
	case "nothing":
		return &reply{status: 204}
	}
	return jsonError(404, "not_found")
}

// collectAnswer classifies what a collection endpoint gave.
func collectAnswer(q *request) (ids []string, ents []any, c certainty) {
	if q.hostile {
		return nil, nil, may
	}
	if q.err || q.status != 200 || q.done == 0 {
		return nil, nil, no
	}
	if q.fault == "garb" || q.fault == "swap" || q.fault == "short" {
		return nil, nil, may
	}
	var m map[string]any
	if json.Unmarshal([]byte(q.body), &m) != nil {
		return nil, nil, no
	}
	l, ok := m["federation_entities"].([]any)
	if !ok {
		return nil, nil, no
	}
	for _, e := range l {
		if e == nil {
			continue
		}
		x, _ := e.(map[string]any)
		id, ok := x["entity_id"].(string)
		if !ok {
			return nil, nil, no
		}
		ids, ents = append(ids, id), append(ents, e)
	}
	return ids, ents, must
}
