package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"runtime"
	"strings"
	"time"
)

// transport is the simulated network: the library's HTTP clients run on top of it.
type transport struct{ w *World }

type bodyReader struct {
	r   *strings.Reader
	err error
}

func (b *bodyReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.err != nil {
		return n, b.err
	}
	return n, err
}
func (b *bodyReader) Close() error { return nil }

var errNet = errors.New("connection refused")

// wait lets d pass; false when the caller gave up.
func wait(ctx context.Context, d time.Duration) bool {
	if d <= 0 {
		return ctx.Err() == nil
	}
	t := time.NewTimer(d)
	defer t.Stop()
	select {
	case <-t.C:
		return ctx.Err() == nil
	case <-ctx.Done():
		return false
	}
}

func (tr *transport) RoundTrip(rq *http.Request) (*http.Response, error) {
	runtime.DetYield()
	w := tr.w
	u := *rq.URL
	params := u.Query()
	u.RawQuery, u.Fragment = "", ""
	key := detach(u.String())
	var body []byte
	if rq.Body != nil {
		body, _ = io.ReadAll(rq.Body)
		_ = rq.Body.Close()
	}
	rt, known := w.routes[key]
	q := &request{seq: len(w.reqs), at: now(), tag: runtime.DetTag(), url: detach(rq.URL.String()), method: rq.Method, reqBody: detach(string(body)), base: key}
	q.what, q.query = "unknown", detach(rq.URL.RawQuery)
	if known {
		q.host, q.what = rt.n.ID, rt.what
		if rt.what != "ec" { // whatever the address was
			q.base = strings.TrimSuffix(rt.n.ID, "/") + "/" + rt.what
		}
	}
	w.reqs = append(w.reqs, q)
	for k := range params {
		if k == "sub" {
			q.arg = detach(params.Get(k))
		}
	}
	w.occ[q.url]++
	n := w.occ[q.url]
	fr := newRng(mix(w.plan.Seed, hashStr(0, q.url), uint64(n), 77))
	lat := func() time.Duration {
		if w.plan.LatencyMS == 0 {
			return 0
		}
		return msec(fr.n(w.plan.LatencyMS/2 + 1))
	}
	l1, l2 := lat(), lat()
	kind, arg := w.faultFor(q, fr)
	q.fault = kind
	if kind != "" {
		w.fired(q, kind)
	}
	ctx := rq.Context()
	defer func() { q.done = now() }()
	timeout := func() (*http.Response, error) {
		q.err = true
		return nil, ctx.Err()
	}
	fail := func(err error) (*http.Response, error) {
		q.err = true
		return nil, err
	}
	switch kind {
	case "refuse":
		if !wait(ctx, l1) {
			return timeout()
		}
		return fail(errNet)
	case "drop":
		<-ctx.Done()
		return timeout()
	}
	if !wait(ctx, l1) {
		return timeout()
	}
	var rep *reply
	if !known {
		rep = w.unknownHost(q)
		if rep == nil {
			return fail(errNet)
		}
	} else if kind == "down" || strings.HasPrefix(kind, "e") {
		rep = errorReply(kind, q)
	} else {
		if err := hangOrFlood(w, rt); err != nil {
			<-ctx.Done()
			return timeout()
		}
		rep = w.serve(q, rt, params)
		if kind == "dup" {
			rep = w.serve(q, rt, params)
		}
	}
	hist := w.history[q.base+"?"+q.arg]
	switch kind {
	case "garb":
		b := []byte(rep.body)
		for i := 0; i < 1+len(b)/40 && len(b) > 0; i++ {
			b[fr.n(len(b))] ^= byte(1 + fr.n(255))
		}
		rep = &reply{status: 200, ctype: rep.ctype, body: string(b)}
		if j := decodeJWT(rep.body); j != nil { // not even recognisable as damaged
			if exp := ofUnix(j.num("exp")); exp > w.poison {
				w.poison = exp
			}
		}
	case "empty200":
		rep = &reply{status: 200, ctype: rep.ctype}
	case "html200":
		rep = &reply{status: 200, ctype: "text/html", body: "<html><body>Please log in</body></html>"}
	case "json200":
		rep = &reply{status: 200, ctype: "application/json", body: pick(fr, `{}`, `null`, `{"status":"ok"}`, `"x"`, `[]`, `[1]`)}
		if q.what == "list" { // an empty list would be a lie, not a failure
			rep.body = pick(fr, `{}`, `{"status":"maintenance"}`, `"x"`, `17`)
		}
	case "short":
		rep = &reply{status: rep.status, ctype: rep.ctype, body: rep.body[:len(rep.body)/2]}
	case "stale":
		if len(hist) > 0 {
			rep = &reply{status: 200, ctype: rep.ctype, body: hist[fr.n(len(hist))].reply}
		}
	case "swap":
		if o := w.anyReply(fr); o != "" {
			rep = &reply{status: 200, ctype: rep.ctype, body: o}
		}
	case "mitm":
		if j := decodeJWT(rep.body); j != nil {
			if exp := ofUnix(j.num("exp")); exp > w.poison {
				w.poison = exp
			}
			k := getKey("attacker@kid:" + fmt.Sprint(j.hdr["kid"]))
			c := J{}
			for a, b := range j.claims {
				c[a] = b
			}
			w.makeEvil(c)
			if fr.p(50) {
				c["jwks"] = jwksOf(k)
			}
			rep = &reply{status: 200, ctype: rep.ctype, body: signJWT(k, j.typ(), c)}
		}
	case "stall":
		l2 += msec(arg)
	}
	if q.what == "list" && (kind == "garb" || kind == "swap" || kind == "stale") && strings.HasPrefix(strings.TrimSpace(rep.body), "[") {
		w.lies = append(w.lies, now()) // listings are not signed: this one is believed
	}
	q.status, q.body = rep.status, rep.body
	if !wait(ctx, l2) {
		return timeout()
	}
	body1 := detach(rep.body)
	br := &bodyReader{r: strings.NewReader(body1)}
	switch kind {
	case "reset":
		return fail(io.ErrUnexpectedEOF)
	case "trunc":
		br.r = strings.NewReader(body1[:len(body1)/2])
		br.err = io.ErrUnexpectedEOF
		q.err = true
	}
	if kind == "" && rep.status == 200 {
		q.reply = rep.body
		w.history[q.base+"?"+q.arg] = append(hist, q)
	}
	var rc io.ReadCloser = br
	if rep.drip > 0 {
		rc = &dripReader{ctx: ctx, q: q, body: body1, gap: rep.drip}
	}
	if rep.flood {
		rc = &floodReader{ctx: ctx, w: w, q: q, rep: rep}
	}
	h := http.Header{}
	if rep.ctype != "" {
		h.Set("Content-Type", detach(rep.ctype))
	}
	for k, v := range rep.extra {
		h.Set(k, detach(v))
	}
	return &http.Response{
		Status: fmt.Sprintf("%d %s", rep.status, http.StatusText(rep.status)), StatusCode: rep.status,
		Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: h, Body: rc, ContentLength: -1, Request: rq,
	}, nil
}

var errHang = errors.New("hang")

func hangOrFlood(w *World, rt route) error {
	if rt.n.Byz == "hang" {
		return errHang
	}
	return nil
}

func (w *World) unknownHost(q *request) *reply { return nil }

func (w *World) anyReply(r *rng) string {
	n := 0
	out := ""
	for _, q := range w.reqs {
		if q.reply != "" {
			n++
			if r.n(n) == 0 {
				out = q.reply
			}
		}
	}
	return out
}

func errorReply(kind string, q *request) *reply {
	switch kind {
	case "e500html":
		return &reply{status: 500, ctype: "text/html", body: "<html>oops</html>"}
	case "e502json":
		return &reply{status: 502, ctype: "application/json", body: `{"error":"temporarily_unavailable","error_description":"try later"}`}
	case "e500json":
		return &reply{status: 500, ctype: "application/json", body: `{"message":"internal"}`}
	case "e503empty":
		return &reply{status: 503}
	case "e500list":
		return &reply{status: 500, ctype: "application/json", body: `[]`}
	case "e404html":
		return &reply{status: 404, ctype: "text/html", body: "<html>not found</html>"}
	case "e404json":
		return &reply{status: 404, ctype: "application/json", body: `{"error":"not_found"}`}
	case "e429":
		return &reply{status: 429, ctype: "text/plain", body: "slow down", extra: map[string]string{"Retry-After": "30"}}
	}
	return &reply{status: 503, ctype: "text/plain", body: "unavailable"}
}

// faultFor decides whether something happens to this request.
func (w *World) faultFor(q *request, r *rng) (string, int) {
	t := int(now() / time.Millisecond)
	for i := range w.plan.Faults {
		f := &w.plan.Faults[i]
		if t < f.From || t >= f.To || (f.Host != "" && f.Host != q.host) || (f.What != "" && f.What != q.what) {
			continue
		}
		if r.p(f.Pct) {
			return f.Kind, f.Arg
		}
	}
	return "", 0
}

func (w *World) fired(q *request, kind string) {
	w.faults["net:"+kind]++
	w.faultAt = append(w.faultAt, faultEvent{now(), q.host, kind})
}

// faultedHosts are the entities whose requests were disturbed in that time; all
// is set when something cannot be attributed.
func (w *World) faultedHosts(a, b time.Duration) map[string]bool {
	out := map[string]bool{}
	for _, q := range w.reqs {
		if q.fault == "" || q.at > b || (q.done != 0 && q.done < a) {
			continue
		}
		out[q.host] = true
	}
	return out
}
