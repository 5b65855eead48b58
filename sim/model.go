package main

import (
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"
)

// The reference model: which trust chains exist in the federation as it is now.

type certainty int

const (
	no certainty = iota
	may
	must
)

func both(a, b certainty) certainty {
	if a < b {
		return a
	}
	return b
}

type mpath struct {
	ids  []string
	cert certainty
}

func (p mpath) key() string { return strings.Join(p.ids, " ") }

// timing tells whether what n signs with that lifetime is usable whenever asked for.
func (n *node) timing(life int) certainty {
	if n.Skew > 0 || (n.Reissue > 0 && life+n.Skew <= n.Reissue) || life+n.Skew <= 0 {
		return may
	}
	return must
}

func (w *World) ecState(id string) certainty {
	n := w.node(id)
	if n == nil {
		return no
	}
	if n.Byz != "" {
		return may
	}
	if n.static != "" {
		// times are written as floating point numbers
		t, tol := now(), time.Microsecond
		switch {
		case t > n.staticExp+tol:
			return no
		case t < n.staticIat+tol || t > n.staticExp-tol:
			return may
		}
		return must
	}
	return n.timing(n.Life)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// strList reads a list of strings out of decoded JSON.
func strList(v any) ([]string, bool) {
	switch l := v.(type) {
	case []string:
		return l, true
	case []any:
		out := []string{}
		for _, x := range l {
			s, ok := x.(string)
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		return out, true
	case string:
		return []string{l}, true
	}
	return nil, false
}

// constraintsHold evaluates the constraints of a statement about ids[len-1]; ids
// are the entities from the start up to the subject of the statement.
func constraintsHold(c J, ids []string, types [][]string) certainty {
	if c == nil {
		return must
	}
	res := must
	if v, ok := c["max_path_length"]; ok {
		f, ok := v.(float64)
		if i, isInt := v.(int); isInt {
			f, ok = float64(i), true
		}
		if !ok {
			return may
		}
		if float64(len(ids)-1) > f {
			return no
		}
	}
	if v, ok := c["naming_constraints"]; ok && v != nil {
		nc, ok := v.(map[string]any)
		if !ok {
			return may
		}
		excl, ok1 := strList(nc["excluded"])
		perm, ok2 := strList(nc["permitted"])
		if (nc["excluded"] != nil && !ok1) || (nc["permitted"] != nil && !ok2) {
			return may
		}
		if nc["permitted"] != nil && len(perm) == 0 {
			res = may // readings differ on whether an empty list permits nothing
		}
		for _, id := range ids {
			u, err := url.Parse(id)
			if err != nil {
				return may
			}
			m := func(l []string) bool {
				for _, e := range l {
					if (strings.HasPrefix(e, ".") && strings.HasSuffix(u.Hostname(), e)) || e == u.Hostname() {
						return true
					}
				}
				return false
			}
			if m(excl) {
				return no
			}
			if len(perm) > 0 && !m(perm) {
				return no
			}
		}
	}
	if v, ok := c["allowed_entity_types"]; ok && v != nil {
		allowed, ok := strList(v)
		if !ok {
			return may
		}
		for _, ts := range types {
			for _, t := range ts {
				if t != "federation_entity" && !contains(allowed, t) {
					return no
				}
			}
		}
	}
	return res
}

// pinned returns the keys under which an anchor is accepted: known is false if the
// anchor is not pinned.
func (w *World) pinned(id string, anchors []AnchorQ) (jwks []any, pinned, unpinned bool) {
	for _, a := range anchors {
		if a.ID != id {
			continue
		}
		if a.Pin == "" {
			unpinned = true
			continue
		}
		pinned = true
		jwks = append(jwks, jwksOf(w.pinKeys(a)...))
	}
	return
}

// pinKeys are the keys an anchor is pinned to in a request.
func (w *World) pinKeys(a AnchorQ) []*simKey {
	n := w.nodes[a.ID]
	if strings.HasPrefix(a.Pin, "gen:") && n != nil {
		g := 0
		fmt.Sscanf(a.Pin, "gen:%d", &g)
		return n.keysOf(g)
	}
	return []*simKey{w.pinKey(a)}
}

// pinKey is the key an anchor is pinned to in a request.
func (w *World) pinKey(a AnchorQ) *simKey {
	n := w.nodes[a.ID]
	if strings.HasPrefix(a.Pin, "gen:") && n != nil {
		g := 0
		fmt.Sscanf(a.Pin, "gen:%d", &g)
		return getKey(n.keyName(g))
	}
	if n != nil && a.Pin == "samekid" {
		return getKey("pin@kidof:" + n.keyName(n.gen))
	}
	return getKey("pin " + a.Pin)
}

func (w *World) anchorState(id string, anchors []AnchorQ) certainty {
	n := w.node(id)
	if n == nil {
		return no
	}
	res := no
	for _, a := range anchors {
		if a.ID != id {
			continue
		}
		s := must
		if a.Pin != "" && w.pinKey(a) != n.key() {
			s = no
		}
		if s == must { // it may be listed several times with different keys
			res = s
		}
	}
	return res
}

func filterTypes(ts, want []string) []string {
	if len(want) == 0 {
		return ts
	}
	out := []string{}
	for _, t := range ts {
		if contains(want, t) {
			out = append(out, t)
		}
	}
	return out
}

func dedupe(l []string) []string {
	out := []string{}
	for _, x := range l {
		if !contains(out, x) {
			out = append(out, x)
		}
	}
	return out
}

const maxPaths = 400

// paths enumerates the trust chains from start to the anchors; cut is set when
// there are too many.
func (w *World) paths(start string, anchors []AnchorQ, want []string) (out []mpath, cut bool) {
	sn := w.node(start)
	if sn == nil {
		return nil, false
	}
	isAnchor := func(id string) bool {
		for _, a := range anchors {
			if a.ID == id {
				return true
			}
		}
		return false
	}
	nodeTypes := func(n *node, first bool) ([]string, []string) {
		if n.NoMeta {
			return nil, nil
		}
		ts := n.types()
		if first {
			return filterTypes(ts, want), ts
		}
		return ts, ts
	}
	// steps bounds the search itself
	steps := 0
	var rec func(ids []string, tf, ta [][]string, c certainty)
	rec = func(ids []string, tf, ta [][]string, c certainty) {
		steps++
		if cut || len(out) > maxPaths || steps > 20000 {
			cut = true
			return
		}
		cur := w.nodes[ids[len(ids)-1]]
		if isAnchor(cur.ID) {
			if c = both(c, w.anchorState(cur.ID, anchors)); c != no {
				out = append(out, mpath{append([]string{}, ids...), c})
			}
			return
		}
		hc := c
		if cur.Byz != "" {
			hc = may
		}
		for _, h := range dedupe(cur.Hints) {
			if contains(ids, h) {
				continue
			}
			a := w.node(h)
			if a == nil || !a.Auth || a.NoFetch || a.NoMeta {
				continue
			}
			s := a.sub(cur.ID)
			if s == nil {
				continue
			}
			cc := both(hc, w.ecState(h))
			if s.Byz != "" {
				cc = both(cc, may)
			}
			if s.Keys == "other" || cur.Key2 != "" && (s.Keys == "st" || s.Keys == "ec" && len(ids) > 1) {
				cc = no
				if cur.Byz != "" || a.Byz != "" || s.Byz != "" {
					cc = may
				}
			}
			if cur.ahead > 0 {
				if cc = no; cur.Byz != "" || a.Byz != "" || s.Byz != "" {
					cc = may
				}
			}
			cc = both(cc, a.timing(s.Life))
			k1, k2 := constraintsHold(s.Constr, ids, tf), constraintsHold(s.Constr, ids, ta)
			if k1 != k2 {
				k1 = may
			}
			if a.Byz != "" || s.Byz != "" {
				if k1 == no {
					k1 = may
				}
			}
			cc = both(cc, k1)
			if cc == no {
				continue
			}
			n1, n2 := nodeTypes(a, false)
			rec(append(ids[:len(ids):len(ids)], h), append(tf[:len(tf):len(tf)], n1), append(ta[:len(ta):len(ta)], n2), cc)
		}
	}
	t1, t2 := nodeTypes(sn, true)
	c := w.ecState(start)
	if sn.NoMeta {
		c = both(c, may)
	}
	if c != no {
		rec([]string{start}, [][]string{t1}, [][]string{t2}, c)
	}
	return out, cut
}

// ---- reference for metadata and policies ----

type tri int

const (
	polOK tri = iota
	polErr
	polUnknown
)

func normal(v any) any {
	switch x := v.(type) {
	case nil:
		return nil
	case bool:
		if !x {
			return nil
		}
	case string:
		if x == "" {
			return nil
		}
	case float64:
		if x == 0 {
			return nil
		}
	case int:
		return normal(float64(x))
	case []string:
		l := []any{}
		for _, s := range x {
			l = append(l, s)
		}
		return normal(l)
	case []any:
		if len(x) == 0 {
			return nil
		}
		all := true
		m := map[string]bool{}
		for _, e := range x {
			s, ok := e.(string)
			all = all && ok
			m[s] = true
		}
		if all {
			l := []string{}
			for s := range m {
				l = append(l, s)
			}
			sort.Strings(l)
			return "set:" + strings.Join(l, "|")
		}
		return "list:" + string(mustJSON(x))
	case map[string]any:
		if len(x) == 0 {
			return nil
		}
		o := J{}
		for k, e := range x {
			if n := normal(e); n != nil {
				o[k] = n
			}
		}
		if len(o) == 0 {
			return nil
		}
		return o
	}
	return v
}

// normalMeta brings decoded metadata into a comparable form; types are kept even if
// nothing is in them.
func normalMeta(m map[string]any) map[string]any {
	out := map[string]any{}
	for t, v := range m {
		if v == nil {
			continue
		}
		n := normal(v)
		if n == nil {
			n = J{}
		}
		out[t] = n
	}
	return out
}

func isList(v any) bool {
	switch v.(type) {
	case []any, []string:
		return true
	}
	return false
}

func setOf(v any) map[string]bool {
	m := map[string]bool{}
	l, ok := strList(v)
	if !ok {
		return nil
	}
	for _, s := range l {
		m[s] = true
	}
	return m
}

func listOf(m map[string]bool) []any {
	l := []string{}
	for s := range m {
		l = append(l, s)
	}
	sort.Strings(l)
	out := []any{}
	for _, s := range l {
		out = append(out, s)
	}
	return out
}

func subsetOfM(a, b map[string]bool) bool {
	for x := range a {
		if !b[x] {
			return false
		}
	}
	return true
}
func sameSet(a, b any) bool {
	x, y := setOf(a), setOf(b)
	return x != nil && y != nil && subsetOfM(x, y) && subsetOfM(y, x) && isList(a) == isList(b)
}

var knownOps = []string{"value", "add", "default", "one_of", "subset_of", "superset_of", "essential"}

// mergeEntries merges two policy entries for one claim.
func mergeEntries(a, b J) (J, tri) {
	out := J{}
	for k, v := range a {
		out[k] = v
	}
	for k, v := range b {
		o, ok := out[k]
		if !ok {
			out[k] = v
			continue
		}
		x, y := setOf(o), setOf(v)
		switch k {
		case "value", "default":
			if !sameSet(o, v) {
				return nil, polErr
			}
		case "add", "superset_of":
			if x == nil || y == nil {
				return nil, polUnknown
			}
			for s := range y {
				x[s] = true
			}
			out[k] = listOf(x)
		case "one_of", "subset_of":
			if x == nil || y == nil {
				return nil, polUnknown
			}
			for s := range x {
				if !y[s] {
					delete(x, s)
				}
			}
			out[k] = listOf(x)
			if len(x) == 0 {
				if k == "one_of" {
					return out, polErr
				}
				return out, polUnknown
			}
		case "essential":
			p, _ := o.(bool)
			q, _ := v.(bool)
			out[k] = p || q
		default:
			// operators nobody knows are ignored
		}
	}
	return out, checkEntry(out)
}

func checkEntry(e J) tri {
	has := func(k string) bool { _, ok := e[k]; return ok }
	in := func(a, b string) tri {
		if !has(a) || !has(b) {
			return polOK
		}
		x, y := setOf(e[a]), setOf(e[b])
		if x == nil || y == nil {
			return polUnknown
		}
		if !subsetOfM(x, y) {
			return polErr
		}
		return polOK
	}
	if has("one_of") && (has("subset_of") || has("superset_of")) {
		return polErr
	}
	if has("one_of") && has("add") {
		return polUnknown
	}
	for _, p := range [][2]string{{"superset_of", "subset_of"}, {"add", "subset_of"}, {"add", "value"}, {"value", "subset_of"}} {
		if r := in(p[0], p[1]); r != polOK {
			return r
		}
	}
	return polOK
}

// applyEntry applies a combined entry to a claim (nil: absent).
func applyEntry(v any, e J) (any, tri) {
	if normal(v) == nil {
		v = nil
	}
	list := isList(v)
	if x, ok := e["value"]; ok {
		v, list = x, isList(x)
	}
	if x, ok := e["add"]; ok {
		if v == nil {
			v, list = x, true
		} else if list {
			m := setOf(v)
			for s := range setOf(x) {
				m[s] = true
			}
			v = listOf(m)
		} else {
			return nil, polUnknown
		}
	}
	if x, ok := e["default"]; ok && v == nil {
		v, list = x, isList(x)
	}
	ess, _ := e["essential"].(bool)
	if x, ok := e["one_of"]; ok {
		if v == nil {
			if ess {
				return nil, polErr
			}
		} else if s, isS := v.(string); !isS {
			return nil, polUnknown
		} else if !setOf(x)[s] {
			return nil, polErr
		}
	}
	if x, ok := e["subset_of"]; ok {
		if v == nil {
			if ess {
				return nil, polErr
			}
		} else if !list {
			return nil, polUnknown
		} else {
			y := setOf(x)
			m := setOf(v)
			for s := range m {
				if !y[s] {
					delete(m, s)
				}
			}
			if len(m) == 0 && (ess || e["superset_of"] != nil) {
				return nil, polUnknown
			}
			v = listOf(m)
		}
	}
	if x, ok := e["superset_of"]; ok {
		if v == nil {
			if ess {
				return nil, polErr
			}
		} else if !list {
			return nil, polUnknown
		} else if !subsetOfM(setOf(x), setOf(v)) {
			return nil, polErr
		}
	}
	if ess && normal(v) == nil {
		return nil, polErr
	}
	return v, polOK
}

// refMetadata computes the resolved metadata of a chain given as decoded statements.
func refMetadata(chain []*rawJWT, want []string) (map[string]any, tri) {
	meta, _ := chain[0].claims["metadata"].(map[string]any)
	comb := map[string]map[string]J{}
	unknown := false
	bad := false
	for i := len(chain) - 1; i >= 1; i-- {
		st := chain[i]
		if st.claims["metadata_policy_crit"] != nil {
			l, ok := strList(st.claims["metadata_policy_crit"])
			if !ok {
				return nil, polUnknown
			}
			for _, o := range l {
				if !contains(knownOps, o) {
					bad = true
				}
			}
		}
		if st.str("iss") != st.str("sub") && st.claims["metadata"] != nil {
			unknown = true
		}
		pol, _ := st.claims["metadata_policy"].(map[string]any)
		for t, pv := range pol {
			p, _ := pv.(map[string]any)
			for c, ev := range p {
				e, ok := ev.(map[string]any)
				if !ok {
					unknown = true
					continue
				}
				if comb[t] == nil {
					comb[t] = map[string]J{}
				}
				old := comb[t][c]
				m, r := mergeEntries(old, e)
				switch r {
				case polErr:
					bad = true
				case polUnknown:
					unknown = true
				}
				if m == nil {
					m = e
				}
				comb[t][c] = m
			}
		}
	}
	if unknown {
		return nil, polUnknown
	}
	if bad {
		return nil, polErr
	}
	out := map[string]any{}
	res := polOK
	for t, mv := range meta {
		if len(want) > 0 && !contains(want, t) {
			continue
		}
		m, ok := mv.(map[string]any)
		if !ok {
			return nil, polUnknown
		}
		o := J{}
		for k, v := range m {
			o[k] = v
		}
		for c, e := range comb[t] {
			v, r := applyEntry(o[c], e)
			if r == polUnknown {
				return nil, polUnknown
			}
			if r == polErr {
				res = polErr
				continue
			}
			if v == nil {
				delete(o, c)
			} else {
				o[c] = v
			}
		}
		out[t] = o
	}
	if res != polOK {
		return nil, res
	}
	return normalMeta(out), polOK
}

// modelChain gives the statements of a path as the federation issues them now.
func (w *World) modelChain(p mpath, t time.Duration) []*rawJWT {
	w.noRecord = true
	defer func() { w.noRecord = false }()
	out := []*rawJWT{}
	add := func(raw string) bool {
		j := decodeJWT(raw)
		if j == nil {
			return false
		}
		out = append(out, j)
		return true
	}
	if !add(w.entityConfiguration(w.nodes[p.ids[0]], t)) {
		return nil
	}
	if len(p.ids) == 1 {
		return out
	}
	for i := 1; i < len(p.ids); i++ {
		n := w.nodes[p.ids[i]]
		s := n.sub(p.ids[i-1])
		if s == nil || !add(w.subordinateStatement(n, s, t)) {
			return nil
		}
	}
	if !add(w.entityConfiguration(w.nodes[p.ids[len(p.ids)-1]], t)) {
		return nil
	}
	return out
}
