package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"time"

	oidfed "github.com/go-oidfed/lib"
	"github.com/go-oidfed/lib/jwks"
)

// Trust marks: reference and operations.

// timeState tells whether a token with these claims is valid at all times in [a,b].
func timeState(c J, a, b time.Duration) certainty {
	res := must
	if v, ok := c["iat"].(float64); ok {
		iat := ofUnix(v)
		if iat > b {
			return no
		}
		if iat > a {
			res = may
		}
	}
	if c["exp"] != nil {
		v, ok := c["exp"].(float64)
		if !ok {
			return may
		}
		exp := ofUnix(v)
		if exp <= a {
			return no
		}
		if exp <= b {
			res = may
		}
	}
	return res
}

const tick = 5 * time.Millisecond

// markExternal judges a trust mark against given keys of issuer and owner.
func markExternal(raw, infoTyp string, keys any, owner string, ownerKeys any, a, b time.Duration) certainty {
	j := decodeJWT(raw)
	if j == nil || j.typ() != "trust-mark+jwt" || j.str("trust_mark_type") != infoTyp {
		return no
	}
	if !j.verifiedBy(keys) {
		return no
	}
	res := both(timeState(j.claims, a, b), j.keyState(keys))
	if owner == "" || res == no {
		return res
	}
	d := decodeJWT(j.str("delegation"))
	if d == nil || d.typ() != "trust-mark-delegation+jwt" || d.str("iss") != owner || d.str("sub") != j.str("iss") ||
		d.str("trust_mark_type") != j.str("trust_mark_type") || !d.verifiedBy(ownerKeys) {
		return no
	}
	return both(res, both(timeState(d.claims, a, b), d.keyState(ownerKeys)))
}

// markState judges a trust mark under a trust anchor as the federation is now; tac
// are the claims of the anchor's entity configuration (nil: the current ones).
func (w *World) markState(r *opResult, raw, infoTyp, taID string, tac J) certainty {
	j := decodeJWT(raw)
	if j == nil {
		return no
	}
	ta := w.nodes[taID]
	if ta == nil {
		return no
	}
	if ta.Hostile["ec"] != 0 {
		return may
	}
	if tac == nil {
		w.noRecord = true
		if c := decodeJWT(w.entityConfiguration(ta, now())); c != nil {
			tac = c.claims
		}
		w.noRecord = false
	}
	cert := must
	iss, typ := j.str("iss"), j.str("trust_mark_type")
	if m, ok := tac["trust_mark_issuers"].(map[string]any); ok {
		if l, found := m[typ]; found {
			ids, ok := strList(l)
			if !ok || len(ids) == 0 {
				cert = may
			} else if !contains(ids, iss) {
				return no
			}
		}
	}
	owner := ""
	var ownerKeys any
	if m, ok := tac["trust_mark_owners"].(map[string]any); ok {
		if o, ok := m[typ].(map[string]any); ok {
			owner, _ = o["sub"].(string)
			ownerKeys = o["jwks"]
		}
	}
	var keys any
	switch in := w.nodes[iss]; {
	case iss == taID:
		keys = tac["jwks"]
	case in == nil:
		return no
	default:
		keys = jwksOf(in.keys()...)
		if in.Byz != "" {
			cert = may
			keys = jwksOf(append(in.keys(), attackerKey(in))...)
		}
		c := w.connected(r, iss, taID)
		if c == no {
			return no
		}
		cert = both(cert, c)
	}
	// JSON types for verifiedBy
	keys, ownerKeys = rejson(keys), rejson(ownerKeys)
	return both(cert, markExternal(raw, infoTyp, keys, owner, ownerKeys, r.t0-tick-r.stalled(), r.t1+tick))
}

func rejson(v any) any {
	var o any
	_ = json.Unmarshal(mustJSON(v), &o)
	return o
}

// connected tells whether there is a valid chain with valid metadata.
func (w *World) connected(r *opResult, sub, ta string) certainty {
	s, all := w.chainsTo(r, sub, ta, nil)
	if len(s) > 0 {
		return must
	}
	if len(all) > 0 {
		return may
	}
	return no
}

// chainsTo gives the chains which surely and which possibly exist now, including the
// verdict of the metadata policies.
func (w *World) chainsTo(r *opResult, sub, ta string, types []string) (sure, all []mpath) {
	ps, cut := w.paths(sub, []AnchorQ{{ID: ta}}, types)
	f := w.faultedHosts(r.t0, r.t1)
	for _, p := range ps {
		c := w.modelChain(p, now())
		st := polUnknown
		if c != nil {
			_, st = refMetadata(c, types)
		}
		if cut {
			st = polUnknown
		}
		if st == polErr {
			if p.cert != must {
				all = append(all, p)
			}
			continue
		}
		all = append(all, p)
		ok := st == polOK && p.cert == must && !f[""]
		for _, id := range p.ids {
			if f[id] || (w.nodes[id] != nil && w.nodes[id].Byz != "") {
				ok = false
			}
		}
		if ok {
			sure = append(sure, p)
		}
	}
	if cut {
		all = append(all, mpath{})
	}
	return
}

// checkMarks compares accepted trust marks of an entity (or sub-set claimed to be
// valid) with the reference. shown are the marks of the entity's configuration.
func (w *World) checkMarks(r *opResult, what, sub string, shown, got []markOut, ta string, tac J, own bool) {
	quiet := w.quiet(r, nil)
	count := map[markOut]int{}
	for _, m := range got {
		count[m]++
		w.probe("trust marks accepted")
		in := false
		for _, s := range shown {
			if s == m {
				in = true
			}
		}
		if !in {
			w.fail("C15 C14", "op %d: %s: reports a trust mark that is not in the configuration of %s", r.idx, what, sub)
			continue
		}
		j := decodeJWT(m.jwt)
		if j == nil {
			w.fail("C14", "op %d: %s: reports something that is no trust mark", r.idx, what)
			continue
		}
		if own && j.str("sub") != sub {
			w.fail("C15", "op %d: %s: a trust mark issued to %s counts for %s", r.idx, what, j.str("sub"), sub)
		}
		if timeState(j.claims, r.t0-tick-r.stalled(), r.t1+tick) == no {
			w.fail("C14 C15", "op %d: %s: trust mark with iat %v exp %v accepted at %v", r.idx, what, j.claims["iat"], j.claims["exp"], r.t1)
			continue
		}
		if in := w.nodes[j.str("iss")]; in != nil && in.ID != ta && in.ahead > 0 && !w.hasByz() && w.poison == 0 && j.verifiedBy(rejson(jwksOf(in.keys()...))) && !j.verifiedBy(rejson(jwksOf(in.attested()...))) {
			// whatever is still in use of what was said before, nobody ever vouched for that key
			w.fail("C14", "op %d: %s: trust mark %s of %s signed by a key of %s that no superior attests was accepted", r.idx, what, m.typ, sub, in.ID)
			continue
		}
		if !quiet {
			continue
		}
		if w.markState(r, m.jwt, m.typ, ta, tac) == no {
			w.fail(w.tags(r, "C14"), "op %d: %s: trust mark %s of %s (%s) accepted under %s although it is not valid there", r.idx, what, m.typ, sub, string(j.payload), ta)
		}
	}
	if !quiet {
		return
	}
	w.probe("trust mark sets predicted")
	want := map[markOut]int{}
	for _, m := range shown {
		want[m]++
	}
	for _, m := range shown {
		j := decodeJWT(m.jwt)
		if j == nil || (own && j.str("sub") != sub) {
			continue
		}
		if count[m] >= want[m] {
			continue
		}
		if w.markState(r, m.jwt, m.typ, ta, tac) == must {
			w.fail(w.tags(r, "C14 C15"), "op %d: %s: trust mark %s of %s (%s) is valid under %s but not accepted", r.idx, what, m.typ, sub, string(j.payload), ta)
			count[m] = want[m]
		}
	}
	for m, n := range count {
		if n > want[m] {
			w.fail("C15", "op %d: %s: a trust mark is reported %d times", r.idx, what, n)
		}
	}
}

// shownMarks are the trust marks in decoded claims.
func shownMarks(c J) (out []markOut) {
	l, _ := c["trust_marks"].([]any)
	for _, e := range l {
		m, _ := e.(map[string]any)
		t, _ := m["trust_mark_type"].(string)
		j, _ := m["trust_mark"].(string)
		out = append(out, markOut{t, j})
	}
	return
}

// judgeMarks checks the trust marks of a resolve response.
func (w *World) judgeMarks(r *opResult, c []*rawJWT) {
	if len(c) == 0 || hostileChain(w, c) {
		return
	}
	ta := c[len(c)-1]
	if ta.str("iss") == "" {
		return
	}
	w.checkMarks(r, "resolve response", r.op.Sub, shownMarks(c[0].claims), r.marks, ta.str("iss"), ta.claims, true)
}

// ---- the operation that verifies trust marks ----

func (w *World) libJWKS(keys ...*simKey) (ks jwks.JWKS) {
	if err := json.Unmarshal(mustJSON(jwksOf(keys...)), &ks); err != nil {
		panic("harness: " + err.Error())
	}
	return
}

func (w *World) execMarks(r *opResult) {
	op := r.op
	ec, err := oidfed.GetEntityConfiguration(op.Sub)
	if err != nil {
		r.setErr(err)
		return
	}
	r.raw = stmtRaw(ec)
	r.out = map[string]any{}
	switch op.A {
	case "external":
		var tmo []oidfed.TrustMarkOwnerSpec
		if op.B != "" {
			tmo = append(tmo, oidfed.TrustMarkOwnerSpec{ID: op.B, JWKS: w.libJWKS(ownerKey(op.Claims[0]))})
		}
		r.t0 = now() // no requests from here on
		for _, m := range ec.TrustMarks.VerifiedExternal(w.libJWKS(w.namedKeys(op.S)...), tmo...) {
			r.marks = append(r.marks, markOut{m.TrustMarkType, m.TrustMarkJWT})
		}
	default:
		ta, err := oidfed.GetEntityConfiguration(op.Anchors[0].ID)
		if err != nil {
			r.setErr(err)
			return
		}
		if ta.Subject != op.Anchors[0].ID || ta.Issuer != ta.Subject {
			r.err = "error: not the configuration of the anchor"
			return
		}
		r.out["ta"] = stmtRaw(ta)
		parsed := make([]*oidfed.TrustMark, len(ec.TrustMarks))
		if op.A == "mark" {
			for i, m := range ec.TrustMarks {
				parsed[i], _ = oidfed.ParseTrustMark([]byte(m.TrustMarkJWT))
			}
		}
		verify := func() (out []markOut) {
			if op.A == "deleg" {
				return verifyDelegations(w, op, ec.TrustMarks, &ta.EntityStatementPayload)
			}
			if op.A == "" {
				for _, m := range ec.TrustMarks.VerifiedFederation(&ta.EntityStatementPayload) {
					out = append(out, markOut{m.TrustMarkType, m.TrustMarkJWT})
				}
				return
			}
			for i := range ec.TrustMarks {
				m := ec.TrustMarks[i]
				ok := false
				switch op.A {
				case "info":
					ok = m.VerifyFederation(&ta.EntityStatementPayload) == nil
				case "mark":
					tm := parsed[i]
					ok = tm != nil && tm.TrustMarkType == m.TrustMarkType && tm.VerifyFederation(&ta.EntityStatementPayload) == nil
				}
				if ok {
					out = append(out, markOut{m.TrustMarkType, m.TrustMarkJWT})
				}
			}
			return
		}
		wait := w.inParallel(r, func() { verify() })
		r.marks = verify()
		wait()
	}
}

// verifyDelegations verifies the delegations in trust marks on their own, under an
// anchor or (op.B) with the keys of an owner.
func verifyDelegations(w *World, op *Op, tms oidfed.TrustMarkInfos, ta *oidfed.EntityStatementPayload) (out []markOut) {
	for _, m := range tms {
		tm, err := oidfed.ParseTrustMark([]byte(m.TrustMarkJWT))
		if err != nil {
			continue
		}
		d, err := tm.Delegation()
		if err != nil || d == nil {
			continue
		}
		if op.B != "" {
			err = d.VerifyExternal(w.libJWKS(ownerKey(op.B)))
		} else {
			err = d.VerifyFederation(ta)
		}
		if err == nil {
			out = append(out, markOut{m.TrustMarkType, m.TrustMarkJWT})
		}
	}
	return
}

// judgeDelegations: whether the delegation names the owner as its issuer is not
// asked for here.
func (w *World) judgeDelegations(r *opResult, shown []markOut, ta *rawJWT) {
	got := map[markOut]bool{}
	for _, m := range r.marks {
		got[m] = true
	}
	owners, _ := ta.claims["trust_mark_owners"].(map[string]any)
	for _, m := range shown {
		w.probe("delegations verified on their own")
		state := no
		j := decodeJWT(m.jwt)
		if j == nil || j.typ() != "trust-mark+jwt" {
			if got[m] {
				w.fail("C14", "op %d: delegation in something that is no trust mark is accepted", r.idx)
			}
			continue
		}
		var d *rawJWT
		if d = decodeJWT(j.str("delegation")); d != nil && d.typ() == "trust-mark-delegation+jwt" {
			var id string
			var keys any
			if r.op.B != "" {
				id, keys = r.op.B, rejson(jwksOf(ownerKey(r.op.B)))
			} else if o, ok := owners[d.str("trust_mark_type")].(map[string]any); ok {
				id, _ = o["sub"].(string)
				keys = rejson(o["jwks"])
			}
			if keys != nil && d.verifiedBy(keys) {
				state = both(timeState(d.claims, r.t0-tick, r.t1+tick), d.keyState(keys))
				if state == must && id != d.str("iss") {
					state = may
				}
			}
		}
		if state == must && !got[m] {
			w.fail("C14", "op %d: delegation %s is valid but not accepted", r.idx, payloadOf(j.str("delegation")))
		}
		if state == no && got[m] {
			w.fail("C14", "op %d: delegation %s is accepted but not valid", r.idx, payloadOf(j.str("delegation")))
		}
	}
}

// namedKeys are given as node id and generation.
func (w *World) namedKeys(l []string) (out []*simKey) {
	for _, s := range l {
		id, g := s, 0
		if i := strings.LastIndex(s, "#"); i >= 0 {
			id = s[:i]
			fmt.Sscanf(s[i:], "#%d", &g)
		}
		if n := w.nodes[id]; n != nil {
			out = append(out, getKey(n.keyName(g)))
		} else {
			out = append(out, getKey(s))
		}
	}
	return
}

func (w *World) judgeTMVerify(r *opResult) {
	op := r.op
	ec := decodeJWT(r.raw)
	if r.err != "" || ec == nil {
		return
	}
	if l := w.ledger[r.raw]; l == nil || l.kind == "hostile" {
		return
	}
	shown := shownMarks(ec.claims)
	if op.A == "external" {
		w.probe("trust marks verified with given keys")
		got := map[markOut]bool{}
		for _, m := range r.marks {
			got[m] = true
		}
		keys := rejson(jwksOf(w.namedKeys(op.S)...))
		var ok any
		if op.B != "" {
			ok = rejson(jwksOf(ownerKey(op.Claims[0])))
		}
		for _, m := range shown {
			c := markExternal(m.jwt, m.typ, keys, op.B, ok, r.t0-tick, r.t1+tick)
			if c == must && !got[m] {
				w.fail("C14", "op %d: trust mark %s is valid under the given keys but not accepted", r.idx, m.typ)
			}
			if c == no && got[m] {
				w.fail("C14", "op %d: trust mark %s (%s) is accepted under given keys but not valid", r.idx, m.typ, payloadOf(m.jwt))
			}
		}
		return
	}
	raw, _ := r.out["ta"].(string)
	ta := decodeJWT(raw)
	if ta == nil {
		return
	}
	if l := w.ledger[raw]; l == nil || l.kind == "hostile" {
		return
	}
	if op.A == "deleg" {
		w.judgeDelegations(r, shown, ta)
		return
	}
	w.probe("trust marks verified")
	w.checkMarks(r, "verification "+op.A, op.Sub, shown, r.marks, op.Anchors[0].ID, ta.claims, false)
}

func payloadOf(raw string) string {
	if j := decodeJWT(raw); j != nil {
		return string(j.payload)
	}
	return "?"
}

// ---- trust mark endpoint ----

// trustMarkEndpoint issues a trust mark the way the node is set to.
func (w *World) trustMarkEndpoint(n *node, p url.Values, t time.Duration) *reply {
	if !n.TMEnd {
		return jsonError(404, "not_found")
	}
	sub, typ := p.Get("sub"), p.Get("trust_mark_type")
	mode := n.TMMode
	iat := t.Truncate(time.Second)
	c := J{"iss": n.ID, "sub": sub, "trust_mark_type": typ, "iat": unixOf(iat), "ref": fmt.Sprintf("%s/marks/%d", n.ID, w.tmSeq)}
	w.tmSeq++
	if n.TMLife > 0 {
		c["exp"] = unixOf(iat + sec(n.TMLife))
	}
	key, hdr := n.key(), "trust-mark+jwt"
	switch mode {
	case "err":
		return jsonError(404, "not_found")
	case "err500":
		return &reply{status: 500, ctype: "text/html", body: "<html>oops</html>"}
	case "html":
		return &reply{status: 200, ctype: "text/html", body: "<html>login</html>"}
	case "empty":
		return &reply{status: 200, ctype: "application/trust-mark+jwt"}
	case "wrongsub":
		c["sub"] = "https://somebody.example.org"
	case "wrongtype":
		c["trust_mark_type"] = typ + "/other"
	case "expired":
		c["iat"], c["exp"] = unixOf(iat-sec(1000)), unixOf(iat-sec(5))
	case "future":
		c["iat"] = unixOf(iat + sec(500))
		if n.TMLife > 0 {
			c["exp"] = unixOf(iat + sec(500+n.TMLife))
		}
	case "typ":
		hdr = "JWT"
	case "json":
		return &reply{status: 200, ctype: "application/json", body: string(mustJSON(J{"trust_mark": signJWT(key, hdr, c)}))}
	}
	return &reply{status: 200, ctype: "application/trust-mark+jwt", body: signJWT(key, hdr, c)}
}

func sortedKeys[T any](m map[string]T) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
